//! C24: detectors. C26: the Python module is the Rust library. C27: the pure-Python package.
//! The laws drive an embedded interpreter whose `komunikilo` module is the one this binary was
//! linked with, so what runs is always the tree under test.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::csk::tx_baseband_csk;
use komunikilo::dcsk::tx_baseband_dcsk;
use komunikilo::fh_css::{linear_chirp, tx_fh_css_signal};
use komunikilo::fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2;
use komunikilo::fsk::tx_bfsk_signal;
use komunikilo::hadamard::HadamardMatrix;
use komunikilo::iter::Iter;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use komunikilo::ssca::*;
use proptest::prelude::*;
use pyo3::prelude::*;
use pyo3::types::{PyModule, PyTuple};
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;
use std::sync::OnceLock;

/// A draw of each source of randomness, as text.
pub fn draw() -> Result<Vec<String>, String> {
    with(|h| h.getattr("draws")?.call0()?.extract::<Vec<String>>())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C24", laws: c24, assumptions: &["signals of at least 4160 samples, with energy in every cycle-frequency bin the ratio divides by"] },
        Property { id: "C26", laws: c26, assumptions: &["CPython 3.12 with the numpy of the sandbox"] },
        Property { id: "C29", laws: c29, assumptions: &["distinct detector values; both hypotheses in each half of the split; pandas and scikit-learn of the sandbox"] },
        Property { id: "C34", laws: c34, assumptions: &["the matplotlib, pandas and scikit-learn of the sandbox"] },
        Property { id: "C27", laws: c27, assumptions: &["the numpy and scipy of the sandbox; non-empty signals of whole symbols"] },
    ]
}

extern "C" {
    fn PyInit_komunikilo() -> *mut pyo3::ffi::PyObject;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn close(fd: i32) -> i32;
}

const HELPERS: &str = r#"
def draws():
    return [repr(list(k.random_data(256))), repr(list(k.awgn([0.0] * 8, 1.0))), repr(list(k.pure_awgn(8, 1.0)))]

def drawn_in_a_thread():
    import threading
    out = []
    t = threading.Thread(target=lambda: out.extend(draws()))
    t.start()
    t.join()
    return out

import io, sys, importlib
import numpy as np
import komunikilo as k

def start(path):
    sys.dont_write_bytecode = True
    sys.path.insert(0, path)
    # The scripts print; keep that off the report.
    sys.stdout = open("/dev/null", "w")

def attempt(name, *args):
    try:
        getattr(k, name)(*args)
        return "ok"
    except BaseException as e:
        return type(e).__name__

def mod(name):
    return importlib.import_module(name)

def call(m, f, *args):
    return getattr(mod(m), f)(*args)

def grid(m, f, flat, rows, cols, *args):
    return call(m, f, np.array(flat, dtype=complex).reshape(rows, cols), *args)

def cplx(x):
    a = np.asarray(x)
    return (list(a.shape), [complex(v) for v in a.reshape(-1)])

def real(x):
    return [float(v) for v in np.asarray(x).reshape(-1)]

def bits(x):
    return [bool(v) for v in np.asarray(list(x)).reshape(-1)]

def view(flat, rows, cols, how):
    a = np.array(flat, dtype=complex).reshape(rows, cols)
    if how == 1:
        return np.asfortranarray(a)
    if how == 2:
        big = np.zeros((2 * rows, 3 * cols), dtype=complex)
        big[::2, 1::3] = a
        return big[::2, 1::3]
    if how == 3:
        return a[::-1, ::-1][::-1, ::-1]
    return a

def roc(h0, h1):
    import warnings
    warnings.simplefilter("ignore")
    m = mod("lambdas")
    find = lambda name: next(getattr(m, n) for n in dir(m) if n.strip("_") == name)
    try:
        df = find("log_regress")(np.array(h0), np.array(h1))
    except ValueError as e:
        return str(e)
    cols = [[float(v) for v in df[c]] for c in ("x", "y", "proba", "tpr", "fpr", "youden_j")]
    return (cols, float(find("auc")(df)), float(find("youden_j")(df)), float(find("best_threshold")(df)))

def under_test(name, signal):
    m = mod("lambdas")
    h = next(h for h in m.harness if h.name == name)
    assert [x.name for x in m.harness].count(name) == 1
    return [(d.name, float(d.detect_fn(signal))) for d in h.detectors]

def send(name, data):
    m = mod("lambdas")
    h = next(h for h in m.harness if h.name == name)
    return [float(x) for x in h.tx_func(data)]

def fresh_detectors():
    m = mod("lambdas")
    a, b = m.harness[0], m.harness[1]
    a.detectors[0].h0s.append([1.0])
    shared = len(b.detectors[0].h0s)
    a.detectors[0].h0s.clear()
    return shared

def kw(name, first, names, values):
    return getattr(k, name)(first, **dict(zip(names, values)))

def errors_after(data, tx, fs, sr, fc, n0):
    return mod("ber_theory").get_ber(data, tx, lambda s: k.rx_bpsk(s, fs, sr, fc), n0)

def with_noise(which, tx, n0, g):
    return [float(x) for x in mod(which).noise_sig(tx, n0, g)]

def normal(x):
    from scipy.stats import normaltest
    return float(normaltest(np.array(x)).pvalue)

import threading
one = threading.Lock()

class InProcess:
    used = 0
    def __init__(self, *a, **k):
        InProcess.used += 1
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def close(self):
        pass
    join = terminate = close
    def map(self, f, it, *a, **k):
        return [f(x) for x in it]
    imap = map
    def starmap(self, f, it, *a, **k):
        return [f(*x) for x in it]

def in_process(m, f):
    # Worker processes of this process would be copies of the harness: work is done here instead.
    import multiprocessing
    with one:
        real = multiprocessing.Pool
        here = getattr(m, "Pool", None)
        InProcess.used = 0
        multiprocessing.Pool = InProcess
        if here is not None:
            m.Pool = InProcess
        try:
            return f()
        except BaseException:
            if InProcess.used:
                raise
            return None
        finally:
            multiprocessing.Pool = real
            if here is not None:
                m.Pool = here

def measured(bits, rx, snrs, sps, sr, fc):
    m = mod("ber")
    m.SAMPLE_RATE, m.SYMBOL_RATE, m.CARRIER_FREQ = sps * sr, sr, fc
    tx = k.tx_bpsk(bits, sps * sr, sr, fc)
    t = m.BitErrorTestResults("BPSK", rx, tx, lambda s: k.rx_bpsk(s, sps * sr, sr, fc), np.array(snrs))
    out = in_process(m, lambda: m.calc_ber(t))
    return None if out is None else [float(x) for x in out.bers]

def experiment(level, per_bit, snrs, attempts):
    m = mod("lambdas")
    run = next(getattr(m, n) for n in dir(m) if n.strip("_") == "run")
    seen = []
    def detect(s):
        a = np.asarray(s)
        seen.append((len(a), float(a.mean()), float(a.std())))
        return float((a * a).mean())
    t = m.ModulationTestResults("steady", lambda bits: [level] * (per_bit * len(bits)))
    t.detectors = [m.DetectorTestResults(name="d", detect_fn=detect)]
    class Meter:
        def update(self, *a):
            pass
        def close(self):
            pass
    plots = [n for n in dir(m) if n.startswith("plot_")]
    keep = {n: getattr(m, n) for n in plots}
    for n in plots:
        setattr(m, n, lambda *a, **k: None)
    try:
        out = in_process(m, lambda: run(t, np.array(snrs), attempts, Meter()))
    finally:
        for n in plots:
            setattr(m, n, keep[n])
    if out is None:
        return None
    d = t.detectors[0]
    rates = [] if d.lr is None else [len(x) for x in d.lr]
    return (seen, [list(map(float, x)) for x in d.h0s], [list(map(float, x)) for x in d.h1s], rates)

def counts(nested):
    m = mod("fh_ofdm_dcsk")
    return (m._len(nested), [int(x) for x in m._flatten(nested)])

def as_array(x, how):
    if how == 0:
        return list(x)
    if how == 1:
        return np.array(x)
    if how == 2:
        return tuple(x)
    return np.repeat(np.array(x), 2)[::2]
def curves(draw):
    # Every line drawn, as (label, x, y), by figure; the grids and heights of surfaces likewise.
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import Axes3D
    with one:
        plt.close("all")
        real, heights = Axes3D.plot_surface, []
        def surface(ax, X, Y, Z, *a, **k):
            heights.append([np.asarray(v, dtype=float).tolist() for v in np.broadcast_arrays(X, Y, Z)])
            return real(ax, X, Y, Z, *a, **k)
        Axes3D.plot_surface = surface
        try:
            draw()
            lines = []
            for n in plt.get_fignums():
                for ax in plt.figure(n).axes:
                    for l in ax.get_lines():
                        x, y = l.get_data()
                        lines.append((str(l.get_label()), [float(v) for v in np.atleast_1d(x)], [float(v) for v in np.atleast_1d(y)]))
            return lines, heights
        finally:
            Axes3D.plot_surface = real
            plt.close("all")

def frame(rows):
    import pandas as pd
    return pd.DataFrame({n: list(c) for n, c in zip(("x", "y", "proba", "tpr", "fpr", "youden_j"), rows)})

def plotted(which, rows, snrs, names):
    # rows: for each name, for each ratio, the columns of a table.
    m = mod("lambdas")
    snrs = np.array(snrs)
    lrs = [[frame(c) for c in per] for per in rows]
    found = []
    for name, per in zip(names, lrs):
        d = m.DetectorTestResults(name=name, detect_fn=None)
        d.lr = per
        found.append(d)
    def results(name, d):
        t = m.ModulationTestResults(name, None)
        t.detectors = [m.DetectorTestResults(name="unwanted", detect_fn=None, lr=lrs[0][:1] * len(snrs)), m.DetectorTestResults(name="wanted", detect_fn=None, lr=d)]
        return t
    calls = {
        "roc": lambda: m.plot_multi_roc_curve(lrs[0], label="curves"),
        "one": lambda: m.plot_youden_j_and_auc_vs_snr(lrs[0], snrs),
        "detectors": lambda: m.plot_multi_youden_j_and_auc_vs_snr(detector_results=found, snrs=snrs, title="detectors"),
        "modulations": lambda: m.plot_youden_j_with_multiple_modulations([results(n, d) for n, d in zip(names, lrs)], "wanted"),
    }
    def draw():
        # The script's own ratios, for functions that read them from there.
        m.snrs = snrs
        calls[which]()
    return curves(draw)[0]

def plotted_auc(h0s, h1s, snrs):
    m = mod("lambdas")
    h0s, h1s = [np.array(x) for x in h0s], [np.array(x) for x in h1s]
    return curves(lambda: m.plot_auc_vs_snr(h0s, h1s, np.array(snrs)))[0]

def plotted_best(h0, h1, rows):
    m = mod("lambdas")
    if rows is None:
        return curves(lambda: m.plot_best_lambda(np.array(h0), np.array(h1)))[0]
    return curves(lambda: m.plot_best_lambda(np.array(h0), np.array(h1), frame(rows)))[0]

def surfaces(which, s, log):
    m = mod("ssca")
    return curves(lambda: getattr(m, which)(np.array(s), log=log))[1]

def plotted_profile(l):
    m = mod("ssca")
    return curves(lambda: m.plot_lambda(np.array(l)))[0]
"#;

fn helpers() -> &'static Py<PyModule> {
    static H: OnceLock<Py<PyModule>> = OnceLock::new();
    H.get_or_init(|| {
        // SAFETY: before the interpreter starts (OnceLock: once), with a 'static name.
        unsafe {
            pyo3::ffi::PyImport_AppendInittab(c"komunikilo".as_ptr(), Some(PyInit_komunikilo));
        }
        pyo3::prepare_freethreaded_python();
        Python::with_gil(|py| {
            let start = || {
                let m = PyModule::from_code_bound(py, HELPERS, "helpers.py", "helpers")?;
                let path = repo_root().join("kom_py");
                m.getattr("start")?.call1((path.to_str().unwrap(),))?;
                Ok::<_, PyErr>(m.unbind())
            };
            start().unwrap_or_else(|e| {
                eprintln!("no answer: the Python side of the harness does not start: {e}");
                std::process::exit(2)
            })
        })
    })
}

/// Runs `f` with the helper module; a Python error becomes an `Err`.
fn with<R>(f: impl FnOnce(&Bound<'_, PyModule>) -> PyResult<R>) -> Result<R, String> {
    let h = helpers();
    Python::with_gil(|py| f(h.bind(py)).map_err(|e| format!("Python raised {e}")))
}

/// Calls `komunikilo.<name>(*args)`.
fn kom<A: IntoPy<Py<PyTuple>>, R>(name: &str, args: A, get: impl FnOnce(Bound<'_, PyAny>) -> PyResult<R>) -> Result<R, String> {
    with(|h| get(h.getattr("k")?.getattr(name)?.call1(args)?))
}

/// Calls a function of the kom_py package.
fn kpy<R>(
    module: &str,
    func: &str,
    args: impl FnOnce(Python<'_>) -> Vec<PyObject>,
    get: impl FnOnce(&Bound<'_, PyModule>, Bound<'_, PyAny>) -> PyResult<R>,
) -> Result<R, String> {
    with(|h| {
        let py = h.py();
        let mut a: Vec<PyObject> = vec![module.into_py(py), func.into_py(py)];
        a.extend(args(py));
        let out = h.getattr("call")?.call1(PyTuple::new_bound(py, a))?;
        get(h, out)
    })
}

fn to_reals(h: &Bound<'_, PyModule>, x: Bound<'_, PyAny>) -> PyResult<Vec<f64>> {
    h.getattr("real")?.call1((x,))?.extract()
}
fn to_bits(h: &Bound<'_, PyModule>, x: Bound<'_, PyAny>) -> PyResult<Vec<bool>> {
    h.getattr("bits")?.call1((x,))?.extract()
}
fn to_cplx(h: &Bound<'_, PyModule>, x: Bound<'_, PyAny>) -> PyResult<(Vec<usize>, Vec<C64>)> {
    h.getattr("cplx")?.call1((x,))?.extract()
}

macro_rules! args {
    ($($a:expr),* $(,)?) => { |py: Python<'_>| vec![$($a.into_py(py)),*] };
}

/// Sends the process's standard output to /dev/null while `f` runs (a binding prints a line).
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    // SAFETY: plain descriptor calls; no other thread reports while a law runs.
    unsafe {
        let keep = dup(1);
        let null = open(c"/dev/null".as_ptr(), 1);
        dup2(null, 1);
        close(null);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        dup2(keep, 1);
        close(keep);
        match r {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

fn close_to(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    ensure!((got - want).abs() <= tol || got == want, "{what} is {got}, expected {want}");
    Ok(())
}

fn equal(what: &str, got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{what}: {} values instead of {}", got.len(), want.len());
    for i in 0..got.len() {
        ensure!((got[i] - want[i]).abs() <= tol, "{what}: value {i} is {}, expected {}", got[i], want[i]);
    }
    Ok(())
}

// ---- C24 ------------------------------------------------------------------------------------

fn max_cut_db(s: &[C64]) -> f64 {
    10.0 * s.iter().fold(0f64, |a, z| a.max(z.norm_sqr())).log10()
}

fn dcs_db(s: &[C64], cols: usize) -> f64 {
    let mut best = f64::NEG_INFINITY;
    for c in 0..cols {
        let top: f64 = s.iter().skip(c).step_by(cols).map(|z| z.norm_sqr()).sum();
        best = best.max(top / s[c].norm_sqr());
    }
    10.0 * best.log10()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Surface {
    rows: usize,
    cols: usize,
    seed: u64,
    how: u8,
    peak: usize,
    /// Decimal exponent of the whole surface.
    scale: i32,
}

impl Surface {
    fn values(&self) -> Vec<C64> {
        let mut r = Prng(self.seed);
        let mut v: Vec<C64> = (0..self.rows * self.cols).map(|_| C64::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0)) + C64::new(0.01, 0.0)).collect();
        // A peak anywhere, of any phase: real, imaginary, negative.
        let n = v.len();
        v[self.peak % n] *= C64::from_polar(1.0 + r.unit() * 5.0, r.range(-PI, PI));
        let g = 10f64.powi(self.scale);
        v.iter_mut().for_each(|z| *z *= g);
        v
    }
}

fn surface() -> BoxedStrategy<Surface> {
    let shape = prop_oneof![
        30 => (size(1, 60), size(1, 70)),
        1 => (size(1, 4200), size(1, 70)),
        1 => (size(1, 70), size(1, 1200)),
    ];
    (shape, any::<u64>(), 0u8..4, any::<usize>(), prop_oneof![6 => Just(0i32), 1 => -60i32..60, 1 => -6i32..6])
        .prop_map(|((rows, cols), seed, how, peak, scale)| Surface { rows, cols, seed, how, peak, scale })
        .boxed()
}

/// Signals for the full detectors: 4160 samples or more.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    extra: usize,
    seed: u64,
    kind: u8,
    gain: f64,
}

const WINDOW: usize = 4096 + 64;

impl Long {
    fn samples(&self) -> Vec<f64> {
        let n = WINDOW + self.extra;
        let mut r = Prng(self.seed);
        let sps = 8 + r.below(40);
        let f = 1.0 + r.below(sps / 2) as f64;
        let bits: Vec<bool> = (0..n / sps + 1).map(|_| r.next() & 1 == 1).collect();
        let noise = [1.0, 0.0, 0.5, 0.05][self.kind as usize % 4];
        let sig = if self.kind == 0 { 0.0 } else { 1.0 };
        (0..n)
            .map(|i| self.gain * (sig * nrz(bits[i / sps]) * ccos(f, i, sps) + noise * r.gauss()))
            .collect()
    }
}

fn long() -> BoxedStrategy<Long> {
    (prop_oneof![2 => Just(0usize), 4 => 0usize..6000, 1 => 6000usize..300_000], any::<u64>(), 0u8..4, gain())
        .prop_map(|(extra, seed, kind, gain)| Long { extra, seed, kind, gain: gain.clamp(1e-3, 1e3) })
        .boxed()
}

fn c24() -> Vec<Law> {
    vec![
        law(
            "energy_detector",
            "a non-zero signal",
            serial(1500, 20_000),
            || (prop_oneof![60 => wave(1, 6000), 1 => wave(1, 1_200_000)], gain()).boxed(),
            |(w, g): &(Wave, f64)| {
                let s = w.samples();
                let e: f64 = s.iter().map(|x| x * x).sum();
                let got = kom("energy_detector", (s.clone(),), |x| x.extract::<f64>())?;
                let avg = kom("avg_energy_py", (s.clone(),), |x| x.extract::<f64>()).or_else(|_| kom("avg_energy", (s.clone(),), |x| x.extract::<f64>()))?;
                close_to("avg_energy", avg, e / s.len() as f64, 1e-9 * e + 1e-300)?;
                if e == 0.0 {
                    ensure!(got == f64::NEG_INFINITY, "energy of silence: {got} dB");
                    return trivial();
                }
                close_to("energy_detector", got, 10.0 * e.log10(), 1e-8)?;
                let louder: Vec<f64> = s.iter().map(|x| g * x).collect();
                let more = kom("energy_detector", (louder,), |x| x.extract::<f64>())?;
                close_to("energy of the amplified signal", more, got + 20.0 * g.log10(), 1e-7)?;
                held(true, &[bucket("samples", s.len())])
            },
        ),
        law(
            "detectors_of_a_given_surface",
            "at least two cycle frequencies and two frequencies",
            serial(2000, 30_000),
            surface,
            |s: &Surface| {
                let v = s.values();
                let call = |name: &str| {
                    with(|h| {
                        let a = h.getattr("view")?.call1((v.clone(), s.rows, s.cols, s.how))?;
                        h.getattr("k")?.getattr(name)?.call1((a,))?.extract::<f64>()
                    })
                };
                close_to("max_cut_detector_sxf", call("max_cut_detector_sxf")?, max_cut_db(&v), 1e-8)?;
                close_to("dcs_detector_sxf", call("dcs_detector_sxf")?, dcs_db(&v, s.cols), 1e-7)?;
                held(s.rows > 1 && s.cols > 1, &[format!("layout:{}", s.how), bucket("rows", s.rows)])
            },
        ),
        law(
            "detectors_of_a_signal",
            "always",
            serial(16, 300),
            long,
            |l: &Long| {
                // The detectors are their definitions applied to the 4096 x 64 estimate.
                let s = l.samples();
                let sx: Vec<C64> = ssca_base(s.clone(), 4096, 64).iter().copied().collect();
                ensure!(sx.len() == 4096 * 64, "{} values", sx.len());
                let m = kom("max_cut_detector", (s.clone(),), |x| x.extract::<f64>())?;
                let d = kom("dcs_detector", (s,), |x| x.extract::<f64>())?;
                close_to("max_cut_detector", m, max_cut_db(&sx), 1e-6)?;
                close_to("dcs_detector", d, dcs_db(&sx, 64), 1e-6)?;
                held(true, &[format!("kind:{}", l.kind)])
            },
        ),
        law(
            "detectors_and_gain",
            "the gain is not 1",
            serial(12, 200),
            || (long(), gain()).boxed(),
            |(l, g): &(Long, f64)| {
                let g = g.clamp(1e-3, 1e3);
                let s = l.samples();
                let t: Vec<f64> = s.iter().map(|x| g * x).collect();
                let f = |name: &str, s: &Vec<f64>| kom(name, (s.clone(),), |x| x.extract::<f64>());
                let (m0, m1) = (f("max_cut_detector", &s)?, f("max_cut_detector", &t)?);
                let (d0, d1) = (f("dcs_detector", &s)?, f("dcs_detector", &t)?);
                close_to("max_cut of the amplified signal", m1, m0 + 40.0 * g.log10(), 1e-5)?;
                close_to("dcs of the amplified signal", d1, d0, 1e-5)?;
                // Only the first window counts.
                let cut = s[..WINDOW].to_vec();
                close_to("max_cut of the first window", f("max_cut_detector", &cut)?, m0, 1e-9)?;
                close_to("dcs of the first window", f("dcs_detector", &cut)?, d0, 1e-9)?;
                held(g != 1.0, &[format!("kind:{}", l.kind)])
            },
        ),
        law(
            "a_signal_raises_the_statistic",
            "always",
            serial(8, 120),
            || any::<u64>().boxed(),
            |seed: &u64| {
                // BPSK against Gaussian noise of the same power.
                let mut r = Prng(*seed);
                let sps = 8 * (1 + r.below(6));
                let fc = (1 + r.below(sps / 2 - 2)) as f64;
                let bits: Vec<bool> = (0..WINDOW / sps + 1).map(|_| r.next() & 1 == 1).collect();
                let mut s: Vec<f64> = tx_bpsk_signal(bits.into_iter(), sps, 1, fc).collect();
                s.truncate(WINDOW);
                let p = (s.iter().map(|x| x * x).sum::<f64>() / s.len() as f64).sqrt();
                let w: Vec<f64> = (0..WINDOW).map(|_| p * r.gauss()).collect();
                let f = |s: Vec<f64>| kom("max_cut_detector", (s,), |x| x.extract::<f64>());
                let (a, b) = (f(s)?, f(w)?);
                ensure!(a > b, "max_cut of BPSK {a} dB, of noise of the same power {b} dB");
                held(true, &[])
            },
        ),
        law(
            "ssca_binding",
            "the mapped form",
            serial(60, 1000),
            || {
                let pow2 = (1u32..7, 0u32..4).prop_map(|(a, b)| (1usize << a, 2usize << (a + b)));
                let any_shape = (1usize..33, 1usize..300).prop_map(|(a, d)| (2 * a, 2 * a + d));
                (prop_oneof![pow2, any_shape], 0usize..50, any::<u64>(), any::<bool>()).boxed()
            },
            |((np, n), extra, seed, map): &((usize, usize), usize, u64, bool)| {
                let (np, n) = (*np, *n);
                let mut r = Prng(*seed);
                let s: Vec<f64> = (0..n + np + extra).map(|_| r.range(-1.0, 1.0)).collect();
                let want = if *map { ssca_mapped(s.clone(), n, np) } else { ssca_base(s.clone(), n, np) };
                let (shape, got) = with(|h| {
                    let out = h.getattr("k")?.getattr("ssca")?.call1((s.clone(), n, np, *map))?;
                    to_cplx(h, out)
                })?;
                ensure!(shape == want.shape(), "ssca({n}, {np}, {map}) has shape {shape:?} instead of {:?}", want.shape());
                for (i, (x, y)) in got.iter().zip(want.iter()).enumerate() {
                    ensure!((x - y).norm() <= 1e-9 * (1.0 + y.norm()), "ssca({n}, {np}, {map}): value {i} is {x} instead of {y}");
                }
                held(*map, &[format!("np:{np}")])
            },
        ),
        law(
            "ssca_defaults",
            "always",
            serial(2, 10),
            || any::<u64>().boxed(),
            |seed: &u64| {
                let mut r = Prng(*seed);
                let s: Vec<f64> = (0..WINDOW + r.below(100)).map(|_| r.range(-1.0, 1.0)).collect();
                let want = ssca_base(s.clone(), 4096, 64);
                let (shape, got) = with(|h| {
                    let out = h.getattr("k")?.getattr("ssca")?.call1((s.clone(),))?;
                    to_cplx(h, out)
                })?;
                ensure!(shape == [4096, 64], "ssca(s) has shape {shape:?}");
                ensure!(got.iter().zip(want.iter()).all(|(x, y)| (x - y).norm() <= 1e-9 * (1.0 + y.norm())), "ssca(s) is not ssca(s, 4096, 64)");
                held(true, &[])
            },
        ),
    ]
}

// ---- C26 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    which: usize,
    h: HopSpec,
    link: Link,
    msg: Msg,
    sub: usize,
    pilots: usize,
    how: u8,
}

const CALLS: usize = 15;

/// A band whose edges come in either order: a binding has no say in the order.
fn either_way(lo: usize, hi: usize) -> BoxedStrategy<HopSpec> {
    (HopSpec::strategy(lo, hi), 0u8..4)
        .prop_map(|(h, flip)| if flip == 0 { HopSpec { lo: h.hi, hi: h.lo, ..h } } else { h })
        .boxed()
}

fn call() -> BoxedStrategy<Call> {
    (0..CALLS, either_way(2, 60), link(2, 60), msg(1000), 4usize..40, 1usize..4, 0u8..4)
        .prop_map(|(which, h, link, m, sub, pilots, how)| Call { which, msg: fit(m, h.sps.max(link.sps) * 2, 20_000), h, link, sub, pilots, how })
        .boxed()
}

/// The message as a list, numpy array, tuple or strided view.
fn seq<T: IntoPy<PyObject>>(h: &Bound<'_, PyModule>, v: Vec<T>, how: u8) -> PyResult<PyObject> {
    Ok(h.getattr("as_array")?.call1((v, how))?.unbind())
}

fn c26() -> Vec<Law> {
    vec![
        law(
            "bindings_are_the_library",
            "at least one output",
            serial(8000, 100_000),
            call,
            |c: &Call| {
                let bits = c.msg.bits();
                let it = || bits.iter().copied();
                let (fs, sr, fc, sps) = (c.link.fs(), c.link.sr, c.link.fc, c.link.sps);
                let h = &c.h;
                let mut r = Prng(bits.len() as u64);
                // Whole symbols and a fraction, at any level.
                let level = 10f64.powi([0, 0, -9, 6, -100, 90][r.below(6)]);
                let wave: Vec<f64> = (0..bits.len() * sps + r.below(sps)).map(|_| level * r.range(-2.0, 2.0)).collect();
                let chips16 = 32 * sr;
                macro_rules! tx {
                    ($name:expr, ($($a:expr),*), $want:expr) => {{
                        let want: Vec<f64> = $want.collect();
                        let got: Vec<f64> = with(|h| h.getattr("k")?.getattr($name)?.call1((seq(h, bits.clone(), c.how)?, $($a),*))?.extract())?;
                        equal($name, &got, &want, 1e-9)?;
                        want.len()
                    }};
                }
                macro_rules! rx {
                    ($name:expr, ($($a:expr),*), $want:expr) => {{
                        let want: Vec<bool> = $want.collect();
                        let got: Vec<bool> = with(|h| h.getattr("k")?.getattr($name)?.call1((seq(h, wave.clone(), c.how)?, $($a),*))?.extract())?;
                        same_bits($name, &got, &want)?;
                        want.len()
                    }};
                }
                let w = || wave.iter().copied();
                let n = match c.which {
                    0 => {
                        let want: Vec<C64> = tx_baseband_bpsk_signal(it()).collect();
                        let got: Vec<C64> = with(|h| h.getattr("k")?.getattr("tx_baseband_bpsk")?.call1((seq(h, bits.clone(), c.how)?,))?.extract())?;
                        ensure!(got == want, "tx_baseband_bpsk differs");
                        want.len()
                    }
                    1 => tx!("tx_bpsk", (fs, sr, fc), tx_bpsk_signal(it(), fs, sr, fc)),
                    2 => rx!("rx_bpsk", (fs, sr, fc), rx_bpsk_signal(w(), fs, sr, fc)),
                    3 => tx!("tx_qpsk", (fs, sr, fc), tx_qpsk_signal(it(), fs, sr, fc)),
                    4 => rx!("rx_qpsk", (fs, sr, fc), rx_qpsk_signal(w(), fs, sr, fc)),
                    5 => tx!("tx_ofdm", (c.sub, c.pilots, fs, sr, fc), tx_ofdm_qpsk_signal(it(), c.sub, c.pilots, fs, sr, fc)),
                    6 => rx!("rx_ofdm", (c.sub, c.pilots, fs, sr, fc), rx_ofdm_qpsk_signal(w(), c.sub, c.pilots, fs, sr, fc)),
                    7 => {
                        let key = HadamardMatrix::new(16).key(0).clone();
                        tx!("tx_cdma_bpsk", (chips16, sr, fc.min((chips16 / 2) as f64)), tx_cdma_bpsk_signal(it(), chips16, sr, fc.min((chips16 / 2) as f64), &key))
                    }
                    8 => tx!("tx_bfsk", (h.fs(), h.sr, h.low(), h.high()), tx_bfsk_signal(it(), h.fs(), h.sr, h.low(), h.high())),
                    9 => tx!("tx_fh_css", (h.fs(), h.sr, h.low(), h.high(), h.num), tx_fh_css_signal(it(), h.fs(), h.sr, h.low(), h.high(), h.num)),
                    10 => tx!("tx_csk", (fs, sr), tx_baseband_csk(it()).inflate(sps)),
                    11 => tx!("tx_dcsk", (fs, sr), tx_baseband_dcsk(it()).inflate(sps)),
                    12 => quiet(|| -> Result<usize, String> { Ok(tx!("tx_fh_ofdm_dcsk", (fs, sr, fc), tx_fh_ofdm_dcsk_signal_2(it(), fs, sr, fc))) })?,
                    13 => {
                        let want: Vec<f64> = linear_chirp(h.sr as f64, h.fs(), h.low(), h.high()).collect();
                        let got = kom("chirp", (h.sr as f64, h.fs(), h.low(), h.high()), |x| x.extract::<Vec<f64>>())?;
                        equal("chirp", &got, &want, 1e-9)?;
                        want.len()
                    }
                    _ => {
                        // A round trip through Python values only.
                        let l = Link { sps, sr, fc: (fc / sr as f64).floor() * sr as f64 };
                        let sure = (0..bits.len()).all(|k| gram(l.fc, fs, sps, k).0 > 1e-3);
                        let got: Vec<bool> = with(|h| {
                            let k = h.getattr("k")?;
                            let tx = k.getattr("tx_bpsk")?.call1((seq(h, bits.clone(), c.how)?, fs, sr, l.fc))?;
                            k.getattr("rx_bpsk")?.call1((tx, fs, sr, l.fc))?.extract()
                        })?;
                        ensure!(got.len() == bits.len(), "{} bits for {}", got.len(), bits.len());
                        if sure {
                            same_bits("rx_bpsk(tx_bpsk(..))", &got, &bits)?;
                        }
                        bits.len()
                    }
                };
                held(n > 0, &[format!("call:{}", c.which), format!("input:{}", ["list", "array", "tuple", "view"][c.how as usize])])
            },
        ),
        law(
            "arguments_by_name",
            "always",
            serial(400, 6000),
            || (0usize..10, either_way(2, 40), link(2, 40), msg_in(1, 60), 6usize..20, any::<u64>()).boxed(),
            |(which, hs, l, m, sub, seed): &(usize, HopSpec, Link, Msg, usize, u64)| {
                // Each argument keeps its name, whatever the order they are given in.
                let bits = m.bits();
                let (fs, sr, fc) = (l.fs(), l.sr, l.fc);
                let mut r = Prng(*seed);
                let wave: Vec<f64> = (0..l.sps * bits.len()).map(|_| r.range(-1.0, 1.0)).collect();
                let link_names = ["sample_rate", "symbol_rate", "carrier_freq"];
                let link_args = [fs as f64, sr as f64, fc];
                let pilots = 2 + sub % 3;
                let it = || bits.iter().copied();
                let w = || wave.iter().copied();
                let mut names: Vec<&str> = link_names.to_vec();
                let mut vals: Vec<f64> = link_args.to_vec();
                let b = |v: Vec<bool>| v.into_iter().map(|x| f64::from(u8::from(x))).collect::<Vec<f64>>();
                let (name, want): (&str, Vec<f64>) = match which {
                    0 => ("tx_bpsk", tx_bpsk_signal(it(), fs, sr, fc).collect()),
                    1 => ("tx_qpsk", tx_qpsk_signal(it(), fs, sr, fc).collect()),
                    2 => ("rx_bpsk", b(rx_bpsk_signal(w(), fs, sr, fc).collect())),
                    3 => ("rx_qpsk", b(rx_qpsk_signal(w(), fs, sr, fc).collect())),
                    4 | 5 => {
                        names.extend(["subcarriers", "pilots"]);
                        vals.extend([*sub as f64, pilots as f64]);
                        if *which == 4 {
                            ("tx_ofdm", tx_ofdm_qpsk_signal(it(), *sub, pilots, fs, sr, fc).collect())
                        } else {
                            ("rx_ofdm", b(rx_ofdm_qpsk_signal(w(), *sub, pilots, fs, sr, fc).collect()))
                        }
                    }
                    6 => {
                        names = vec!["sample_rate", "symbol_rate", "freq_low", "freq_high"];
                        vals = vec![hs.fs() as f64, hs.sr as f64, hs.low(), hs.high()];
                        ("tx_bfsk", tx_bfsk_signal(it(), hs.fs(), hs.sr, hs.low(), hs.high()).collect())
                    }
                    7 => {
                        names = vec!["sample_rate", "symbol_rate", "freq_low", "freq_high", "num_freqs"];
                        vals = vec![hs.fs() as f64, hs.sr as f64, hs.low(), hs.high(), hs.num as f64];
                        ("tx_fh_css", tx_fh_css_signal(it(), hs.fs(), hs.sr, hs.low(), hs.high(), hs.num).collect())
                    }
                    8 => ("tx_fh_ofdm_dcsk", tx_fh_ofdm_dcsk_signal_2(it(), fs, sr, fc).collect()),
                    _ => {
                        names.truncate(2);
                        vals.truncate(2);
                        ("tx_dcsk", tx_baseband_dcsk(it()).inflate(l.sps).collect())
                    }
                };
                // Any order of the names.
                for i in (1..names.len()).rev() {
                    let j = r.below(i + 1);
                    names.swap(i, j);
                    vals.swap(i, j);
                }
                let got: Vec<f64> = quiet(|| with(|h| {
                    let py = h.py();
                    let values: Vec<PyObject> = names
                        .iter()
                        .zip(&vals)
                        .map(|(n, v)| if ["carrier_freq", "freq_low", "freq_high"].contains(n) { v.into_py(py) } else { (*v as u64).into_py(py) })
                        .collect();
                    let first = if name.starts_with("tx") { bits.clone().into_py(py) } else { wave.clone().into_py(py) };
                    let out = h.getattr("kw")?.call1((name, first, names.clone(), values))?;
                    to_reals(h, out)
                }))?;
                equal(name, &got, &want, 1e-9)?;
                held(true, &[format!("call:{name}")])
            },
        ),
        law(
            "bindings_on_long_data",
            "always",
            serial(10, 200),
            || (0usize..8, 66_000usize..300_000, 1usize..4, any::<u64>()).boxed(),
            |&(which, n, half, seed): &(usize, usize, usize, u64)| {
                // Past the 16-bit counts, with a carrier that does not fit the symbol.
                let sps = 2 * half;
                let (sr, fs) = (1000usize, 2000 * half);
                let fc = 0.37 * fs as f64 / 2.0;
                let mut r = Prng(seed);
                let bits: Vec<bool> = (0..n).map(|_| r.next() & 1 == 1).collect();
                let wave: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
                let tx = |name: &str, want: Vec<f64>| -> Result<(), String> {
                    let got = kom(name, (bits.clone(), fs, sr, fc), |x| x.extract::<Vec<f64>>())?;
                    equal(name, &got, &want, 1e-9)
                };
                let rx = |name: &str, want: Vec<bool>| -> Result<(), String> {
                    let got = kom(name, (wave.clone(), fs, sr, fc), |x| x.extract::<Vec<bool>>())?;
                    same_bits(name, &got, &want)
                };
                let (it, w) = (|| bits.iter().copied(), || wave.iter().copied());
                match which {
                    0 => tx("tx_bpsk", tx_bpsk_signal(it(), fs, sr, fc).collect())?,
                    1 => tx("tx_qpsk", tx_qpsk_signal(it(), fs, sr, fc).collect())?,
                    2 => rx("rx_bpsk", rx_bpsk_signal(w(), fs, sr, fc).collect())?,
                    3 => rx("rx_qpsk", rx_qpsk_signal(w(), fs, sr, fc).collect())?,
                    4 => equal("tx_csk", &kom("tx_csk", (bits.clone(), fs, sr), |x| x.extract::<Vec<f64>>())?, &tx_baseband_csk(it()).inflate(sps).collect::<Vec<f64>>(), 1e-9)?,
                    5 => equal("tx_dcsk", &kom("tx_dcsk", (bits.clone(), fs, sr), |x| x.extract::<Vec<f64>>())?, &tx_baseband_dcsk(it()).inflate(sps).collect::<Vec<f64>>(), 1e-9)?,
                    6 => equal("tx_bfsk", &kom("tx_bfsk", (bits.clone(), fs, sr, 0.3 * fc, fc), |x| x.extract::<Vec<f64>>())?, &tx_bfsk_signal(it(), fs, sr, 0.3 * fc, fc).collect::<Vec<f64>>(), 1e-9)?,
                    _ => {
                        let y = kom("awgn", (wave.clone(), 0.0), |v| v.extract::<Vec<f64>>())?;
                        ensure!(y == wave, "awgn with sigma 0 changes the signal");
                        let avg = kom("avg_energy", (wave.clone(),), |x| x.extract::<f64>())?;
                        close_to("avg_energy", avg, wave.iter().map(|x| x * x).sum::<f64>() / n as f64, 1e-9)?;
                    }
                }
                held(true, &[format!("call:{which}"), bucket("items", n)])
            },
        ),
        law(
            "random_data",
            "always",
            serial(200, 2000),
            || (prop_oneof![1 => Just(0usize), 3 => size(0, 3000), 1 => 20_000usize..60_000]).boxed(),
            |n: &usize| {
                let get = || with(|h| { let x = h.getattr("k")?.getattr("random_data")?.call1((*n,))?; to_bits(h, x) });
                let (a, b) = (get()?, get()?);
                ensure!(a.len() == *n && b.len() == *n, "{} and {} bits for {n}", a.len(), b.len());
                if *n >= 300 {
                    let z = |v: &[f64]| v.iter().sum::<f64>() / (*n as f64).sqrt();
                    let s: Vec<f64> = a.iter().map(|&x| nrz(x)).collect();
                    let runs: Vec<f64> = s.windows(2).map(|w| w[0] * w[1]).collect();
                    let cross: Vec<f64> = a.iter().zip(&b).map(|(x, y)| nrz(x == y)).collect();
                    for (what, v) in [("balance", z(&s)), ("correlation of neighbours", z(&runs)), ("correlation of two calls", z(&cross))] {
                        ensure!(v.abs() < 7.5, "random_data({n}): {what} is {v} standard deviations off");
                    }
                    // No bit depends on an earlier one, near or far.
                    for lag in (2..200).chain((8..15).map(|e| 1 << e)).filter(|lag| lag + 300 <= *n) {
                        let v = s[lag..].iter().zip(&s).map(|(a, b)| a * b).sum::<f64>() / ((n - lag) as f64).sqrt();
                        ensure!(v.abs() < 7.8, "random_data({n}): correlation {lag} bits apart is {v} standard deviations off");
                    }
                }
                held(true, &[bucket("bits", *n)])
            },
        ),
        law(
            "noise_bindings",
            "always",
            serial(20, 300),
            || (20_000usize..30_000, prop_oneof![0.01f64..10.0, Just(1.0), prop::sample::select(vec![1e-200, 1e-30, 1e-12, 1e-7, 1e4, 1e12, 1e100])], any::<u64>()).boxed(),
            |(n, s, seed): &(usize, f64, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<f64> = (0..*n).map(|_| 2.0 * s * nrz(r.next() & 1 == 1)).collect();
                let y = kom("awgn", (x.clone(), *s), |v| v.extract::<Vec<f64>>())?;
                ensure!(y.len() == *n, "awgn: {} samples for {n}", y.len());
                let noise: Vec<f64> = y.iter().zip(&x).map(|(a, b)| a - b).collect();
                gaussian("awgn", &noise, *s)?;
                uncorrelated("noise and signal", &noise, &x, *s, 2.0 * s)?;
                let p = kom("pure_awgn", (*n, *s), |v| v.extract::<Vec<f64>>())?;
                ensure!(p.len() == *n, "pure_awgn: {} samples for {n}", p.len());
                gaussian("pure_awgn", &p, *s)?;
                uncorrelated("two noises", &noise, &p, *s, *s)?;
                let same = kom("awgn", (x.clone(), 0.0), |v| v.extract::<Vec<f64>>())?;
                ensure!(same == x, "awgn with sigma 0 changes the signal");
                held(true, &[])
            },
        ),
        law(
            "fresh_draws",
            "draws in a further thread and two further processes were compared",
            serial(1, 4),
            || any::<u64>().boxed(),
            |_: &u64| {
                // Each run of a program, and each of its threads, draws its own bits and noise.
                let here = draw()?;
                let there = with(|h| {
                    let f = h.getattr("drawn_in_a_thread")?;
                    f.call0()?.extract::<Vec<String>>()
                })?;
                let mut seen = vec![here, there];
                seen.extend((0..2).filter_map(|_| drawn_elsewhere("py")));
                for k in 0..3 {
                    let what = ["random_data", "awgn", "pure_awgn"][k];
                    for i in 0..seen.len() {
                        for j in 0..i {
                            ensure!(seen[i][k] != seen[j][k], "{what} gives the same in two threads or runs: {}", seen[i][k]);
                        }
                    }
                }
                held(seen.len() == 4, &[format!("draws:{}", seen.len())])
            },
        ),
        law(
            "noise_binding_tails",
            "always",
            serial(1, 6),
            || (0.01f64..10.0).boxed(),
            |s: &f64| {
                // Millions of samples: the far tails of the noise as Python receives it.
                let n = 1 << 20;
                let (mut a, mut b) = (Shape::new(), Shape::new());
                for _ in 0..2 {
                    kom("awgn", (vec![*s; n], *s), |v| v.extract::<Vec<f64>>())?.iter().for_each(|y| a.add(y / s - 1.0));
                    kom("pure_awgn", (n, *s), |v| v.extract::<Vec<f64>>())?.iter().for_each(|y| b.add(y / s));
                }
                a.normal("awgn")?;
                b.normal("pure_awgn")?;
                held(true, &[])
            },
        ),
        law(
            "bad_calls_raise",
            "always",
            serial(400, 4000),
            || (0usize..12, 2usize..40, 2usize..2000, 1usize..500).boxed(),
            |(which, sps, sr, over): &(usize, usize, usize, usize)| {
                // A configuration the library rejects is a Python exception, and the interpreter
                // goes on.
                let fs = sps * sr;
                let odd = fs + 1 + over % (sr - 1).max(1);
                let odd = if odd % sr == 0 { odd + 1 } else { odd };
                let high = (fs / 2 + over) as f64;
                let b = vec![true, false, true];
                let got: String = quiet(|| with(|h| {
                    let a = h.getattr("attempt")?;
                    match which {
                        0 => a.call1(("tx_bpsk", b.clone(), odd, *sr, 0.0)),
                        1 => a.call1(("tx_bpsk", b.clone(), fs, *sr, high)),
                        2 => a.call1(("tx_cdma_bpsk", b.clone(), fs - fs % (16 * sr) + 1, *sr, 0.0)),
                        3 => a.call1(("tx_bfsk", b.clone(), fs, *sr, 0.0, high)),
                        4 => a.call1(("tx_fh_css", b.clone(), fs, *sr, 0.0, high, 4)),
                        5 => a.call1(("tx_csk", b.clone(), odd, *sr)),
                        6 => a.call1(("tx_dcsk", b.clone(), odd, *sr)),
                        7 => a.call1(("tx_fh_ofdm_dcsk", b.clone(), fs, *sr, high)),
                        8 => a.call1(("tx_ofdm", b.clone(), 8, 2, odd, *sr, 0.0)),
                        9 => a.call1(("ssca", vec![0.0; 64], *sps, *sps)),
                        10 => a.call1(("max_cut_detector", vec![1.0; 100 + over])),
                        _ => a.call1(("tx_bpsk", vec!["x", "y"], fs, *sr, 0.0)),
                    }?
                    .extract()
                }))?;
                ensure!(got != "ok", "bad call {which} (fs {fs} or {odd}, sr {sr}, frequency {high}) is accepted");
                let want = if *which == 11 { "TypeError" } else { "PanicException" };
                ensure!(got == want || *which != 11, "bad call {which} raises {got}");
                let tx = kom("tx_bpsk", (b.clone(), fs, *sr, 0.0), |x| x.extract::<Vec<f64>>())?;
                ensure!(tx.len() == 3 * sps, "{} samples after an exception", tx.len());
                held(true, &[format!("call:{which}"), format!("raises:{got}")])
            },
        ),
    ]
}

// ---- C27 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PyPass {
    link: Link,
    msg: Msg,
    gain: f64,
}

fn pypass(lo: usize, hi: usize) -> BoxedStrategy<PyPass> {
    (prop_oneof![12 => link(lo, hi), 1 => link(lo, 1500)], prop_oneof![30 => msg_in(1, 300), 1 => msg_in(1, 4000)], gain())
        .prop_map(|(link, m, gain)| PyPass { msg: fit(m, link.sps, 20_000), link, gain })
        .boxed()
}

/// The code of kom_py/cdma.py.
const PYKEY: [bool; 16] = [true, true, false, false, true, true, false, false, true, true, false, false, true, true, false, false];

fn symbols_ok(fc: f64, fs: usize, sps: usize, n: usize) -> bool {
    (0..n).all(|k| {
        let (c, s, x) = gram(fc, fs, sps, k);
        c > 1e-3 && s > 1e-3 && x.abs() < 0.5 * c.min(s)
    })
}

fn naive_ssca(s: &[f64], n: usize, np: usize) -> Vec<C64> {
    let ham = |l: usize, i: usize| if l == 1 { 1.0 } else { 0.54 - 0.46 * (2.0 * PI * i as f64 / (l - 1) as f64).cos() };
    let shift = |k: usize, l: usize| (k + l - l / 2) % l;
    let mut out = vec![C64::new(0.0, 0.0); n * np];
    let mut xg = vec![vec![C64::new(0.0, 0.0); n]; np];
    for m in 0..n {
        let x: Vec<C64> = (0..np).map(|i| C64::new(s[m + i] * ham(np, i), 0.0)).collect();
        let f = dft(&x, false);
        for (c, col) in xg.iter_mut().enumerate() {
            let k = c as f64 - (np / 2) as f64;
            let turn = (m as f64 * k / np as f64).fract();
            col[m] = f[shift(c, np)] * C64::from_polar(1.0, -2.0 * PI * turn) * s[np / 2 + m] * ham(n, m);
        }
    }
    for (c, col) in xg.iter().enumerate() {
        let f = dft(col, false);
        for q in 0..n {
            out[q * np + c] = f[shift(q, n)];
        }
    }
    out
}

fn c27() -> Vec<Law> {
    vec![
        law(
            "psk_transmitters",
            "at least two symbols",
            serial(600, 10_000),
            || pypass(1, 60),
            |p: &PyPass| {
                let bits = p.msg.bits();
                let l = &p.link;
                let (fs, sr, fc, sps) = (l.fs(), l.sr, l.fc, l.sps);
                let b = kpy("psk", "tx_bpsk", args![bits.clone(), fs, sr, fc], to_reals)?;
                same_wave("psk.tx_bpsk", &b, bits.len() * sps, |i| nrz(bits[i / sps]) * ccos(fc, i, fs), |i| wtol(fc, i, fs))?;
                let bit = |i: usize| bits.get(i).copied().unwrap_or(false);
                let q = kpy("psk", "tx_qpsk", args![bits.clone(), fs, sr, fc], to_reals)?;
                let r2 = 2f64.sqrt();
                same_wave("psk.tx_qpsk", &q, bits.len().div_ceil(2) * sps, |i| {
                    let k = i / sps;
                    r2 * (nrz(bit(2 * k)) * ccos(fc, i, fs) - nrz(bit(2 * k + 1)) * csin(fc, i, fs))
                }, |i| 3.0 * wtol(fc, i, fs))?;
                let (_, bb) = kpy("psk", "tx_baseband_bpsk", args![bits.clone()], to_cplx)?;
                ensure!(bb.len() == bits.len() && bb.iter().zip(&bits).all(|(z, &x)| *z == C64::new(nrz(x), 0.0)), "psk.tx_baseband_bpsk: {bb:?}");
                let (_, bq) = kpy("psk", "tx_baseband_qpsk", args![bits.clone()], to_cplx)?;
                ensure!(bq.len() == bits.len().div_ceil(2), "psk.tx_baseband_qpsk: {} symbols", bq.len());
                for (k, z) in bq.iter().enumerate() {
                    ensure!((z - C64::new(r2 * nrz(bit(2 * k)), r2 * nrz(bit(2 * k + 1)))).norm() < 1e-12, "psk.tx_baseband_qpsk: symbol {k} is {z}");
                }
                held(bits.len() > 2, &[bucket("bits", bits.len()), bucket("sps", sps)])
            },
        ),
        law(
            "psk_loopback",
            "at least one symbol was demodulated",
            serial(500, 8000),
            || pypass(2, 60),
            |p: &PyPass| {
                let bits = p.msg.bits();
                let l = &p.link;
                let (fs, sr, fc, sps) = (l.fs(), l.sr, l.fc, l.sps);
                let n = bits.len();
                let amp = |v: Vec<f64>| v.into_iter().map(|x| x * p.gain).collect::<Vec<f64>>();
                let (_, bb) = kpy("psk", "tx_baseband_bpsk", args![bits.clone()], to_cplx)?;
                let back = kpy("psk", "rx_baseband_bpsk", args![bb], to_bits)?;
                same_bits("baseband BPSK", &back, &bits)?;
                let (_, bq) = kpy("psk", "tx_baseband_qpsk", args![bits.clone()], to_cplx)?;
                let back = kpy("psk", "rx_baseband_qpsk", args![bq], to_bits)?;
                ensure!(back.len() == n + n % 2, "baseband QPSK: {} bits", back.len());
                same_bits("baseband QPSK", &back[..n], &bits)?;
                let mut m = 0;
                if (0..n).all(|k| gram(fc, fs, sps, k).0 > 1e-3) {
                    let tx = amp(kpy("psk", "tx_bpsk", args![bits.clone(), fs, sr, fc], to_reals)?);
                    same_bits("rx_bpsk", &kpy("psk", "rx_bpsk", args![tx.clone(), fs, sr, fc], to_bits)?, &bits)?;
                    // The Rust receiver understands the Python transmitter.
                    same_bits("Rust rx_bpsk", &take_up_to(rx_bpsk_signal(tx.into_iter(), fs, sr, fc), n + 2), &bits)?;
                    m += n;
                }
                if symbols_ok(fc, fs, sps, n) {
                    let tx = amp(kpy("psk", "tx_qpsk", args![bits.clone(), fs, sr, fc], to_reals)?);
                    let rx = kpy("psk", "rx_qpsk", args![tx.clone(), fs, sr, fc], to_bits)?;
                    ensure!(rx.len() == n + n % 2, "rx_qpsk: {} bits for {n}", rx.len());
                    same_bits("rx_qpsk", &rx[..n], &bits)?;
                    let rust = take_up_to(rx_qpsk_signal(tx.into_iter(), fs, sr, fc), n + 4);
                    same_bits("Rust rx_qpsk", &rust[..n.min(rust.len())], &bits)?;
                    m += n;
                }
                held(m > 0, &[bucket("bits", n), bucket("sps", sps)])
            },
        ),
        law(
            "baseband_receivers_slice",
            "at least one sample",
            serial(500, 8000),
            || (prop_oneof![20 => 0usize..60, 1 => 0usize..5000], -300.0f64..300.0, any::<bool>(), any::<u64>()).boxed(),
            |(n, level, mixed, seed): &(usize, f64, bool, u64)| {
                // The signs of any complex samples, whatever their level.
                let mut r = Prng(*seed);
                let x: Vec<C64> = (0..*n)
                    .map(|_| {
                        let mut part = || {
                            let e = if *mixed { r.range(-300.0, 300.0) } else { *level };
                            let v = r.range(0.1, 1.0) * 10f64.powf(e);
                            if r.next() & 1 == 1 { v } else { -v }
                        };
                        C64::new(part(), part())
                    })
                    .collect();
                let got = kpy("psk", "rx_baseband_bpsk", args![x.clone()], to_bits)?;
                same_bits("psk.rx_baseband_bpsk", &got, &x.iter().map(|z| z.re > 0.0).collect::<Vec<_>>())?;
                let got = kpy("psk", "rx_baseband_qpsk", args![x.clone()], to_bits)?;
                same_bits("psk.rx_baseband_qpsk", &got, &x.iter().flat_map(|z| [z.re > 0.0, z.im > 0.0]).collect::<Vec<_>>())?;
                held(*n > 0, &[bucket("samples", *n), format!("mixed:{mixed}")])
            },
        ),
        law(
            "psk_receivers_correlate",
            "at least one unambiguous symbol",
            serial(500, 8000),
            || (prop_oneof![8 => link(1, 60), 1 => link(1, 1500)], prop_oneof![20 => 1usize..60, 1 => 1usize..600], prop_oneof![2 => Just(0.0f64), 1 => -60.0f64..60.0], any::<u64>()).boxed(),
            |(l, n, level, seed): &(Link, usize, f64, u64)| {
                let (fs, sr, fc, sps) = (l.fs(), l.sr, l.fc, l.sps);
                let mut r = Prng(*seed);
                let s: Vec<f64> = (0..n * sps).map(|_| r.range(-1.0, 1.0)).collect();
                let loud: Vec<f64> = s.iter().map(|x| x * 10f64.powf(*level)).collect();
                let i = correlate(&s, sps, |k| ccos(fc, k, fs));
                let q = correlate(&s, sps, |k| -csin(fc, k, fs));
                let sure = |x: &(f64, f64)| x.0.abs() > 1e-5 * (1.0 + x.1.abs());
                let b = kpy("psk", "rx_bpsk", args![loud.clone(), fs, sr, fc], to_bits)?;
                let want: Vec<bool> = i.iter().map(|x| x.0 > 0.0).collect();
                let m = same_bits_where("psk.rx_bpsk", &b, &want, |k| sure(&i[k]))?;
                let b = kpy("psk", "rx_qpsk", args![loud, fs, sr, fc], to_bits)?;
                let both: Vec<(f64, f64)> = i.iter().zip(&q).flat_map(|(a, b)| [*a, *b]).collect();
                let want: Vec<bool> = both.iter().map(|x| x.0 > 0.0).collect();
                same_bits_where("psk.rx_qpsk", &b, &want, |k| sure(&both[k]))?;
                held(m > 0, &[bucket("symbols", *n), bucket("sps", sps)])
            },
        ),
        law(
            "cdma_link",
            "at least one symbol was despread",
            serial(300, 5000),
            || (prop_oneof![4 => 2usize..5, 1 => 2usize..60], symbol_rate(), 0.0f64..1.0, prop_oneof![20 => msg_in(1, 60), 1 => msg_in(1, 1500)], gain()).boxed(),
            |(c, sr, u, m, g): &(usize, usize, f64, Msg, f64)| {
                let sps = 16 * c;
                let fs = sps * sr;
                // A whole number of half cycles per chip keeps the despread carrier's energy.
                let fc = (u * (c + 1) as f64).floor() * (16 * sr) as f64 / 2.0;
                let bits = m.bits();
                let tx = kpy("cdma", "tx_bpsk_cdma", args![bits.clone(), fs, *sr, fc], to_reals)?;
                let key = PYKEY;
                same_wave("cdma.tx_bpsk_cdma", &tx, bits.len() * sps, |i| nrz(bits[i / sps]) * nrz(key[i / c % 16]) * ccos(fc, i, fs), |i| wtol(fc, i, fs))?;
                if !(0..bits.len()).all(|k| gram(fc, fs, sps, k).0 > 1e-3) {
                    return trivial();
                }
                let loud: Vec<f64> = tx.iter().map(|x| g * x).collect();
                let rx = kpy("cdma", "rx_bpsk_cdma", args![loud.clone(), fs, *sr, fc], to_bits)?;
                same_bits("cdma.rx_bpsk_cdma", &rx, &bits)?;
                // The waveform is what the Rust modem sends with the same key.
                let rust = take_up_to(rx_cdma_bpsk_signal(loud.into_iter(), fs, *sr, fc, &key), bits.len() + 2);
                ensure!(rust == bits || rust.iter().zip(&bits).all(|(a, b)| a != b), "the Rust receiver disagrees: {}", bits_to_string(&rust));
                held(true, &[bucket("bits", bits.len()), format!("chip:{c}")])
            },
        ),
        law(
            "cdma_receiver_correlates",
            "at least one unambiguous symbol",
            serial(300, 4000),
            || (prop_oneof![4 => 2usize..5, 1 => 2usize..60], symbol_rate(), 0.0f64..1.0, prop_oneof![20 => 1usize..30, 1 => 1usize..600], any::<u64>()).boxed(),
            |(c, sr, u, n, seed): &(usize, usize, f64, usize, u64)| {
                let sps = 16 * c;
                let fs = sps * sr;
                let fc = u * (fs / 2) as f64;
                let mut r = Prng(*seed);
                let s: Vec<f64> = (0..n * sps).map(|_| r.range(-1.0, 1.0)).collect();
                let d: Vec<f64> = s.iter().enumerate().map(|(i, x)| x * nrz(PYKEY[i / c % 16])).collect();
                let i = correlate(&d, sps, |k| ccos(fc, k, fs));
                let want: Vec<bool> = i.iter().map(|x| x.0 > 0.0).collect();
                let got = kpy("cdma", "rx_bpsk_cdma", args![s, fs, *sr, fc], to_bits)?;
                let m = same_bits_where("cdma.rx_bpsk_cdma", &got, &want, |k| i[k].0.abs() > 1e-5 * (1.0 + i[k].1.abs()))?;
                held(m > 0, &[bucket("symbols", *n)])
            },
        ),
        law(
            "invalid_configurations_are_rejected",
            "the configuration is invalid",
            serial(600, 6000),
            || (2usize..40, 1usize..500, 0usize..100, 0usize..6, 0usize..4, 0.0f64..1.0).boxed(),
            |&(m, sr, over, modem, spoil, u): &(usize, usize, usize, usize, usize, f64)| {
                let cdma = modem >= 4;
                let sps = if cdma { 32 + 16 * (m / 4) } else { m };
                let fs = sps * sr;
                let top = fs as f64 / 2.0;
                let (fs, fc, bad) = match spoil {
                    0 => (fs + over % sr, 0.0, over % sr != 0),
                    1 => (fs, top + over as f64 + u, over as f64 + u > 0.0),
                    // Chips of one sample, or of a fraction more than some.
                    2 if cdma && over % 2 == 0 => (16 * sr, 0.0, true),
                    2 if cdma => ((sps + 1 + over % 15) * sr, 0.0, true),
                    // The limits are accepted.
                    2 => (fs, top, false),
                    _ => (fs, u * top, false),
                };
                let bits = vec![true, false, false, true];
                let wave = vec![0.5; 3 * sps];
                let r = match modem {
                    0 => kpy("psk", "tx_bpsk", args![bits, fs, sr, fc], to_reals).map(|_| ()),
                    1 => kpy("psk", "rx_bpsk", args![wave, fs, sr, fc], to_bits).map(|_| ()),
                    2 => kpy("psk", "tx_qpsk", args![bits, fs, sr, fc], to_reals).map(|_| ()),
                    3 => kpy("psk", "rx_qpsk", args![wave, fs, sr, fc], to_bits).map(|_| ()),
                    4 => kpy("cdma", "tx_bpsk_cdma", args![bits, fs, sr, fc], to_reals).map(|_| ()),
                    _ => kpy("cdma", "rx_bpsk_cdma", args![wave, fs, sr, fc], to_bits).map(|_| ()),
                };
                if bad {
                    ensure!(r.as_ref().is_err_and(|e| e.contains("AssertionError")), "modem {modem} with a sample rate of {fs}, symbol rate {sr} and carrier {fc}: {r:?} instead of an AssertionError");
                } else {
                    ensure!(r.is_ok(), "modem {modem} rejects a sample rate of {fs}, symbol rate {sr} and carrier {fc}: {r:?}");
                }
                held(bad, &[format!("call:{modem}"), format!("spoil:{spoil}")])
            },
        ),
        law(
            "util_scalars",
            "always",
            serial(2500, 40_000),
            || {
                let n = prop_oneof![2 => 0u128..70, 2 => 0u128..1_000_000, 2 => (0u32..120, -2i128..3).prop_map(|(k, d)| ((1i128 << k) + d).max(0) as u128), 2 => 0u128..(1 << 62), 1 => 0u128..(1 << 120)];
                (n.prop_map(|n| n.to_string()), -200.0f64..200.0).boxed()
            },
            |(n, d): &(String, f64)| {
                let n: &u128 = &n.parse().unwrap();
                let up = kpy("util", "next_power_of_2", args![*n], |_, x| x.extract::<u128>())?;
                let want = (*n).max(1).next_power_of_two();
                ensure!(up == want, "next_power_of_2({n}) = {up}");
                let down = kpy("util", "floor_power_of_2", args![*n], |_, x| x.extract::<u128>())?;
                let want = if *n == 0 { 0 } else { 1u128 << (127 - n.leading_zeros()) };
                ensure!(down == want, "floor_power_of_2({n}) = {down}");
                let lin = kpy("util", "undb", args![*d], |_, x| x.extract::<f64>())?;
                ensure!((lin - 10f64.powf(d / 10.0)).abs() <= 1e-12 * lin, "undb({d}) = {lin}");
                let back = kpy("util", "db", args![lin], |_, x| x.extract::<f64>())?;
                close_to("db(undb(x))", back, *d, 1e-9)?;
                let (t, f) = (kpy("util", "bit_to_nrz", args![true], |_, x| x.extract::<f64>())?, kpy("util", "bit_to_nrz", args![false], |_, x| x.extract::<f64>())?);
                ensure!(t == 1.0 && f == -1.0, "bit_to_nrz: {t}, {f}");
                held(true, &[])
            },
        ),
        law(
            "util_sequences",
            "at least one item",
            serial(600, 8000),
            || prop_oneof![20 => (prop::collection::vec(-1000i64..1000, 0..60), 1usize..20), 1 => (prop::collection::vec(-1000i64..1000, 0..3000), 1usize..1200)].boxed(),
            |(v, n): &(Vec<i64>, usize)| {
                let got = kpy("util", "chunk", args![v.clone(), *n, -9999i64], |_, x| {
                    x.iter()?.map(|t| t?.extract::<Vec<i64>>().or_else(|e| Err(e))).collect::<PyResult<Vec<Vec<i64>>>>()
                })?;
                let want: Vec<Vec<i64>> = v.chunks(*n).map(|c| c.iter().copied().chain(std::iter::repeat(-9999)).take(*n).collect()).collect();
                ensure!(got == want, "chunk({v:?}, {n}) = {got:?}");
                let nrzs = kpy("util", "bitz_to_nrz", args![v.iter().map(|x| x % 2 == 0).collect::<Vec<bool>>()], |_, x| x.iter()?.map(|t| t?.extract::<f64>()).collect::<PyResult<Vec<f64>>>())?;
                ensure!(nrzs == v.iter().map(|x| nrz(x % 2 == 0)).collect::<Vec<f64>>(), "bitz_to_nrz: {nrzs:?}");
                // The zero-frequency bin moves to the middle, as numpy's fftshift does.
                let sh = kpy("util", "fftshift", args![v.iter().map(|&x| x as f64).collect::<Vec<f64>>()], to_reals)?;
                let k = v.len();
                let want: Vec<f64> = (0..k).map(|i| v[(i + k - k / 2) % k] as f64).collect();
                ensure!(sh == want, "fftshift({v:?}) = {sh:?}");
                held(!v.is_empty(), &[bucket("items", v.len())])
            },
        ),
        law(
            "chirps",
            "at least two samples",
            serial(600, 10_000),
            || (2usize..1500, 1usize..2000, -1.0f64..1.0, -1.0f64..1.0, -4.0f64..4.0).boxed(),
            |(sps, rate, a, b, ph): &(usize, usize, f64, f64, f64)| {
                let fs = sps * rate;
                let (f0, f1) = (a * fs as f64 / 2.0, b * fs as f64 / 2.0);
                let period = 1.0 / *rate as f64;
                let want = |f0: f64, f1: f64, i: usize| {
                    let t = period * i as f64 / (sps - 1) as f64;
                    (2.0 * PI * (f0 * t + (f1 - f0) / period * t * t / 2.0) + ph).sin()
                };
                let tol = |_: usize| 1e-8 + 1e-12 * *sps as f64;
                let n = (fs as f64 / *rate as f64) as usize;
                let c = kpy("chirp", "chirpz", args![*rate, fs, f0, f1, 1, *ph], to_reals)?;
                same_wave("chirp.chirpz", &c, n, |i| want(f0, f1, i), tol)?;
                let (mid, bw) = ((f0 + f1) / 2.0, f1 - f0);
                let c = kpy("chirp", "chirpCtr", args![fs, mid, *rate, bw, *ph], to_reals)?;
                same_wave("chirp.chirpCtr", &c, n, |i| want(mid - bw / 2.0, mid + bw / 2.0, i), tol)?;
                held(*sps > 2, &[bucket("sps", *sps)])
            },
        ),
        law(
            "ssca_is_its_definition",
            "always",
            serial(60, 1000),
            || {
                let pow2 = (1u32..5, 0u32..3).prop_map(|(a, b)| (1usize << a, 1usize << (a + b)));
                let whole = (1usize..10, 1usize..9).prop_map(|(a, m)| (2 * a, 2 * a * m));
                let any_shape = (1usize..10, 0usize..60).prop_map(|(a, d)| (2 * a, 2 * a + d));
                (prop_oneof![pow2, whole, any_shape], 0usize..20, any::<u64>()).boxed()
            },
            |((np, n), extra, seed): &((usize, usize), usize, u64)| {
                let (np, n) = (*np, *n);
                let mut r = Prng(*seed);
                let s: Vec<f64> = (0..n + np + extra).map(|_| r.range(-1.0, 1.0)).collect();
                let want = naive_ssca(&s, n, np);
                let (shape, got) = kpy("ssca", "ssca", args![s.clone(), n, np, false], to_cplx)?;
                ensure!(shape == [n, np], "shape {shape:?}");
                for (i, (x, y)) in got.iter().zip(&want).enumerate() {
                    ensure!((x - y).norm() < 1e-8 * n as f64, "ssca({n}, {np}): value {i} is {x} instead of {y}");
                }
                let (shape, map) = kpy("ssca", "ssca", args![s, n, np], to_cplx)?;
                ensure!(shape == [np + 1, 2 * n + 1], "mapped shape {shape:?}");
                let mut full: Vec<Vec<C64>> = vec![Vec::new(); (np + 1) * (2 * n + 1)];
                for q in 0..n {
                    for k in 0..np {
                        full[(k * n + n * np - q * np) / (2 * n) * (2 * n + 1) + k * n / np + q].push(want[q * np + k]);
                    }
                }
                for (i, (x, y)) in map.iter().zip(&full).enumerate() {
                    let zero = y.is_empty() && x.norm() == 0.0;
                    ensure!(zero || y.iter().any(|y| (x - y).norm() < 1e-8 * n as f64), "mapped ssca({n}, {np}): value {i} is {x} instead of {y:?}");
                }
                held(true, &[format!("np:{np}")])
            },
        ),
        law(
            "detector_statistics",
            "at least two rows and columns",
            serial(500, 8000),
            surface,
            |s: &Surface| {
                let v = s.values();
                let call = |f: &str| {
                    with(|h| {
                        let out = h.getattr("grid")?.call1(("ssca", f, v.clone(), s.rows, s.cols))?;
                        to_reals(h, out)
                    })
                };
                let want: Vec<f64> = v.chunks(s.cols).map(max_cut_db).collect();
                equal("ssca.max_cut", &call("max_cut")?, &want, 1e-8)?;
                let want: Vec<f64> = (0..s.cols)
                    .map(|c| {
                        let top: f64 = v.iter().skip(c).step_by(s.cols).map(|z| z.norm_sqr()).sum();
                        10.0 * (top / v[c].norm_sqr()).log10()
                    })
                    .collect();
                equal("ssca.dcs", &call("dcs")?, &want, 1e-7)?;
                held(s.rows > 1 && s.cols > 1, &[bucket("rows", s.rows)])
            },
        ),
        law(
            "willie_energies",
            "a non-zero signal",
            serial(500, 8000),
            || (wave(1, 500), gain()).boxed(),
            |(w, g): &(Wave, f64)| {
                let s = w.samples();
                let e: f64 = s.iter().map(|x| x * x).sum::<f64>() / s.len() as f64;
                let got = kpy("willie", "avg_energy", args![s.clone()], |_, x| x.extract::<f64>())?;
                close_to("willie.avg_energy", got, e, 1e-9 * e + 1e-300)?;
                let z: Vec<C64> = s.chunks(2).map(|c| C64::new(c[0], *c.last().unwrap())).collect();
                let e2 = z.iter().map(|z| z.norm_sqr()).sum::<f64>() / z.len() as f64 / 2.0;
                let got = kpy("willie", "avg_energy_iq", args![z], |_, x| x.extract::<f64>())?;
                close_to("willie.avg_energy_iq", got, e2, 1e-9 * e2 + 1e-300)?;
                let sc = kpy("willie", "scale", args![s.clone(), *g], to_reals)?;
                equal("willie.scale", &sc, &s.iter().map(|x| g * x).collect::<Vec<f64>>(), 1e-12 * g * s.iter().fold(0.0f64, |a, x| a.max(x.abs())))?;
                held(e > 0.0, &[bucket("samples", s.len())])
            },
        ),
        law(
            "willie_noise",
            "always",
            serial(12, 200),
            || (20_000usize..25_000, 0.01f64..10.0, any::<u64>()).boxed(),
            |(n, s, seed): &(usize, f64, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<f64> = (0..*n).map(|_| r.range(-s, *s)).collect();
                let y = kpy("willie", "awgn", args![x.clone(), *s], to_reals)?;
                ensure!(y.len() == *n, "willie.awgn: {} samples", y.len());
                let noise: Vec<f64> = y.iter().zip(&x).map(|(a, b)| a - b).collect();
                gaussian("willie.awgn", &noise, *s)?;
                let z: Vec<C64> = x.iter().map(|v| C64::new(*v, -v)).collect();
                let (_, y) = kpy("willie", "awgn_iq", args![z.clone(), *s], to_cplx)?;
                ensure!(y.len() == *n, "willie.awgn_iq: {} samples", y.len());
                let re: Vec<f64> = y.iter().zip(&z).map(|(a, b)| (a - b).re).collect();
                let im: Vec<f64> = y.iter().zip(&z).map(|(a, b)| (a - b).im).collect();
                gaussian("willie.awgn_iq, in phase", &re, *s)?;
                gaussian("willie.awgn_iq, quadrature", &im, *s)?;
                uncorrelated("the two components", &re, &im, *s, *s)?;
                held(true, &[])
            },
        ),
        law(
            "willie_noise_tails",
            "always",
            serial(1, 6),
            || (0.01f64..10.0).boxed(),
            |s: &f64| {
                let n = 1 << 20;
                let (mut a, mut re, mut im, mut g) = (Shape::new(), Shape::new(), Shape::new(), Shape::new());
                for _ in 0..2 {
                    kpy("willie", "awgn", args![vec![*s; n], *s], to_reals)?.iter().for_each(|y| a.add(y / s - 1.0));
                    let (_, y) = kpy("willie", "awgn_iq", args![vec![C64::new(0.0, *s); n / 2], *s], to_cplx)?;
                    y.iter().for_each(|y| {
                        re.add(y.re / s);
                        im.add(y.im / s - 1.0);
                    });
                }
                let y = with(|h| h.getattr("with_noise")?.call1(("ber", vec![0.0; n], *s, 2.0))?.extract::<Vec<f64>>())?;
                y.iter().for_each(|y| g.add(y / s / 2.0));
                a.normal("willie.awgn")?;
                re.normal("willie.awgn_iq, in phase")?;
                im.normal("willie.awgn_iq, quadrature")?;
                g.normal("noise_sig")?;
                held(true, &[])
            },
        ),
        law(
            "theory_and_error_rate",
            "at least one error",
            serial(800, 10_000),
            || (prop_oneof![30 => msg_in(1, 500), 1 => msg_in(1, 70_000)], prop_oneof![30 => msg_in(1, 500), 1 => msg_in(1, 70_000)], 0.0f64..8.0).boxed(),
            |(a, b, snr): &(Msg, Msg, f64)| {
                let (a, b) = (a.bits(), b.bits());
                let errs = a.iter().zip(&b).filter(|(x, y)| x != y).count();
                let want = errs as f64 / a.len().min(b.len()) as f64;
                let got = kpy("ber_theory", "ber", args![a.clone(), b.clone()], |_, x| x.extract::<f64>())?;
                close_to("ber_theory.ber", got, want, 1e-12)?;
                let q = q_func((2.0 * snr).sqrt());
                let got = kpy("ber_theory", "ber_bpsk", args![*snr], |_, x| x.extract::<f64>())?;
                close_to("ber_bpsk", got, q, 1e-9)?;
                // Each bit of a QPSK pair is a BPSK bit.
                let got = kpy("ber_theory", "ber_qpsk", args![*snr], |_, x| x.extract::<f64>())?;
                close_to("ber_qpsk", got, q, 1e-9)?;
                held(errs > 0, &[])
            },
        ),
        law(
            "example_curves",
            "always",
            serial(800, 10_000),
            || (-30.0f64..30.0, -20.0f64..20.0, 0.1f64..5.0, 0.05f64..4.0, 0.0f64..8.0, any::<bool>()).boxed(),
            |(x, x0, l, k, snr, many): &(f64, f64, f64, f64, f64, bool)| {
                // The logistic curve through half its height at x0, and the error rate with an offset.
                let m = "pd_ber_snr_example";
                let want = |x: f64, x0: f64, l: f64, k: f64| l / (1.0 + (-k * (x - x0)).exp());
                // Relative, so that the tails count as well.
                let close = |what: &str, got: f64, want: f64| { ensure!((got - want).abs() <= 1e-9 * want.abs(), "{what}: {got:e} instead of {want:e}"); Ok(()) };
                let one = |_: &Bound<'_, PyModule>, x: Bound<'_, PyAny>| x.extract::<f64>();
                close("logistic_curve", kpy(m, "logistic_curve", args![*x, *x0, *l, *k], one)?, want(*x, *x0, *l, *k))?;
                close("logistic_curve with its defaults", kpy(m, "logistic_curve", args![*x], one)?, want(*x, 0.0, 1.0, 1.0))?;
                close_to("ber with an offset", kpy(m, "ber", args![snr + l, *l], one)?, q_func((2.0 * snr).sqrt()), 1e-9)?;
                close_to("ber", kpy(m, "ber", args![*snr], one)?, q_func((2.0 * snr).sqrt()), 1e-9)?;
                if *many {
                    let xs = [*x, x + 1.0, x - 0.5];
                    let got = with(|h| to_reals(h, h.getattr("call")?.call1((m, "logistic_curve", h.getattr("as_array")?.call1((xs.to_vec(), 1))?, *x0, *l, *k))?))?;
                    equal("logistic_curve of an array", &got, &xs.map(|x| want(x, *x0, *l, *k)), 1e-9)?;
                }
                held(true, &[format!("array:{many}")])
            },
        ),
        law(
            "durations",
            "at least a minute",
            serial(1500, 20_000),
            || (prop_oneof![2 => 0u64..200, 2 => 0u64..100_000, 2 => 0u64..400_000_000, 2 => (0u64..2000, -3i64..4).prop_map(|(d, o)| (d as i64 * 86_400 + o).max(0) as u64), 2 => (0u64..2000, 0u64..3, 0i64..5).prop_map(|(y, d, o)| y * 31_557_600 + d * 86_400 + o as u64), 1 => 0u64..20_000_000_000], 0.0f64..1.0, any::<bool>()).boxed(),
            |(secs, frac, whole): &(u64, f64, bool)| {
                let t = if *whole { *secs as f64 } else { *secs as f64 + (frac * 1000.0).floor() / 1024.0 };
                let s = kpy("util", "secs_to_str", args![t], |_, x| x.extract::<String>())?;
                if t == 0.0 {
                    ensure!(!s.is_empty(), "no text for 0 s");
                    return trivial();
                }
                // Years of 365.25 days, largest unit first, each below the next one.
                let unit = [("Y", 31_557_600u64, u64::MAX), ("d", 86_400, 366), ("h", 3600, 24), ("m", 60, 60), ("s", 1, 60)];
                let mut total = 0u64;
                let mut next = 0;
                for part in s.split(':') {
                    let (num, u) = part.split_at(part.len() - 1);
                    let k = unit.iter().position(|x| x.0 == u).ok_or_else(|| format!("{t} s is {s:?}"))?;
                    let n: u64 = num.parse().map_err(|_| format!("{t} s is {s:?}"))?;
                    ensure!(k >= next && n < unit[k].2, "{t} s is {s:?}");
                    // A unit leads only if it counts.
                    ensure!(next > 0 || n > 0 || u == "s", "{t} s is {s:?}");
                    next = k + 1;
                    total += n * unit[k].1;
                }
                ensure!(total == *secs, "{t} s is {s:?}, which is {total} s");
                held(*secs >= 60, &[bucket("seconds", *secs as usize)])
            },
        ),
        law(
            "error_rate_of_a_link",
            "at least one bit differs",
            serial(300, 4000),
            || (link(2, 40), msg_in(1, 200), msg_in(1, 200), any::<u64>()).boxed(),
            |(l, a, b, seed): &(Link, Msg, Msg, u64)| {
                // Without noise, the error rate of the link is that of the two messages.
                let (a, b) = (a.bits(), b.bits());
                let (fs, sr, fc, sps) = (l.fs(), l.sr, l.fc, l.sps);
                let n = b.len();
                let tx: Vec<f64> = tx_bpsk_signal(b.iter().copied(), fs, sr, fc).collect();
                let got = with(|h| h.getattr("errors_after")?.call1((a.clone(), tx.clone(), fs, sr, fc, 0.0))?.extract::<f64>())?;
                let sure = (0..n).all(|k| gram(fc, fs, sps, k).0 > 1e-3);
                let errs = a.iter().zip(&b).filter(|(x, y)| x != y).count();
                if sure {
                    close_to("get_ber", got, errs as f64 / a.len().min(n) as f64, 1e-12)?;
                }
                // The noise model scales its noise, and leaves the signal as it is without.
                let which = if seed % 2 == 0 { "ber_theory" } else { "ber" };
                let same = with(|h| h.getattr("with_noise")?.call1((which, tx.clone(), 0.0, 3.0))?.extract::<Vec<f64>>())?;
                equal("noise_sig without noise", &same, &tx, 0.0)?;
                let same = with(|h| h.getattr("with_noise")?.call1((which, tx.clone(), 3.0, 0.0))?.extract::<Vec<f64>>())?;
                equal("noise_sig without noise", &same, &tx, 0.0)?;
                held(sure && errs > 0, &[bucket("bits", n)])
            },
        ),
        law(
            "measured_error_rates",
            "the rates were measured",
            serial(20, 200),
            || (2usize..24, 0.0f64..1.0, 0.2f64..3.0, 0.2f64..3.0, 0.0f64..0.3, prop_oneof![(1usize..12), (12usize..200), Just(usize::MAX)], any::<u64>()).boxed(),
            |(c, u, s0, s1, flips, n, seed): &(usize, f64, f64, f64, f64, usize, u64)| {
                // As many samples per symbol as symbols per second, as in the script: BPSK theory.
                let (sps, sr) = (4 * c, 4 * c);
                let fc = (1.0 + (u * (2 * c - 2) as f64).floor()) * sr as f64;
                let mut r = Prng(*seed);
                // A short message is measured many times over.
                let total = 200_000 / sps;
                let n = (*n).min(total);
                let reps = (total / n).min(400);
                let total = n * reps;
                let bits: Vec<bool> = (0..n).map(|_| r.next() & 1 == 1).collect();
                // The message compared with may differ: every bit of it is wrong or right as such.
                let flips = (flips * n as f64) as usize;
                let mut want = bits.clone();
                want.iter_mut().take(flips).for_each(|b| *b = !*b);
                let snrs: Vec<f64> = (0..reps).flat_map(|_| [*s0, *s1, 1e9]).collect();
                let got: Option<Vec<f64>> = with(|h| h.getattr("measured")?.call1((bits.clone(), want, snrs.clone(), sps, sr, fc))?.extract())?;
                let Some(got) = got else { return trivial() };
                ensure!(got.len() == snrs.len(), "{} rates for {} ratios", got.len(), snrs.len());
                let m = flips as f64 / n as f64;
                for k in 0..3 {
                    let snr = snrs[k];
                    let got = got.iter().skip(k).step_by(3).sum::<f64>() / reps as f64;
                    let q = q_func((2.0 * snr).sqrt());
                    let p = q * (1.0 - m) + (1.0 - q) * m;
                    // The variance of a count of rare errors, and of at least one of them.
                    let tol = 6.5 * (q * (1.0 - q) / total as f64).sqrt() + 30.0 / total as f64 * (k < 2) as usize as f64 + 1e-9;
                    ensure!((got - p).abs() <= tol, "an Eb/N0 of {snr}: rate {got} instead of {p} +- {tol} over {total} bits, {n} at a time");
                }
                held(true, &[format!("sps:{sps}")])
            },
        ),
        law(
            "noise_and_normality",
            "always",
            serial(12, 150),
            || (20_000usize..22_000, 0.1f64..5.0, 0.1f64..5.0, any::<u64>()).boxed(),
            |(n, s, g, seed): &(usize, f64, f64, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<f64> = (0..*n).map(|_| r.range(-3.0, 3.0)).collect();
                let y = with(|h| h.getattr("with_noise")?.call1((if seed % 2 == 0 { "ber" } else { "ber_theory" }, x.clone(), *s, *g))?.extract::<Vec<f64>>())?;
                ensure!(y.len() == *n, "noise_sig: {} samples", y.len());
                let noise: Vec<f64> = y.iter().zip(&x).map(|(a, b)| a - b).collect();
                gaussian("noise_sig", &noise, s * g)?;
                // The p-value detector is scipy's test at 5 %.
                let part = &x[..200 + r.below(500)];
                let mixed: Vec<f64> = part.iter().enumerate().map(|(i, v)| if seed % 3 == 0 { r.gauss() } else { v + (i % 7) as f64 }).collect();
                let p = with(|h| h.getattr("normal")?.call1((mixed.clone(),))?.extract::<f64>())?;
                let got = kpy("willie", "p_value", args![mixed, 1.0], |_, x| x.is_truthy())?;
                ensure!(got == (p < 0.05), "p_value is {got} for p = {p}");
                held(true, &[])
            },
        ),
        law(
            "butterworth_bandpass",
            "always",
            serial(150, 2000),
            || (0.05f64..0.3, 0.05f64..0.3, 1usize..5, 100.0f64..1e6, any::<u64>()).boxed(),
            |(a, w, order, fs, seed): &(f64, f64, usize, f64, u64)| {
                // The digital Butterworth response: -3 dB at the edges, monotonic, flat in between.
                let (lo, hi) = (a * fs / 2.0, (a + w) * fs / 2.0);
                let h = with(|m| {
                    let ba = m.getattr("call")?.call1(("bpf", "butter_bandpass", lo, hi, *fs, *order))?;
                    let b = to_reals(m, ba.get_item(0)?)?;
                    let a = to_reals(m, ba.get_item(1)?)?;
                    Ok((b, a))
                })?;
                let resp = |f: f64| {
                    let ev = |c: &[f64]| c.iter().enumerate().map(|(i, c)| c * C64::from_polar(1.0, -2.0 * PI * f / fs * i as f64)).sum::<C64>();
                    (ev(&h.0) / ev(&h.1)).norm()
                };
                let warp = |f: f64| (PI * f / fs).tan();
                let (wl, wh) = (warp(lo), warp(hi));
                let mut r = Prng(*seed);
                for k in 0..12 {
                    let f = match k { 0 => lo, 1 => hi, _ => fs / 2.0 * r.range(0.01, 0.99) };
                    let wf = warp(f);
                    let x = (wf * wf - wl * wh) / (wf * (wh - wl));
                    let want = 1.0 / (1.0 + x.powi(2 * *order as i32)).sqrt();
                    close_to(&format!("response at {f}"), resp(f), want, 1e-4)?;
                }
                // Filtering is that response.
                let n = 200;
                let imp: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect();
                let y = kpy("bpf", "butter_bandpass_filter", args![imp, lo, hi, *fs, *order], to_reals)?;
                let mut want: Vec<f64> = Vec::new();
                for i in 0..n {
                    let mut v = h.0.get(i).copied().unwrap_or(0.0);
                    for j in 1..h.1.len().min(i + 1) {
                        v -= h.1[j] * want[i - j];
                    }
                    want.push(v / h.1[0]);
                }
                equal("impulse response", &y, &want, 1e-6)?;
                held(true, &[format!("order:{order}")])
            },
        ),
        law(
            "fh_dcsk_sequences",
            "at least two data",
            serial(400, 4000),
            || (2usize..11, any::<u64>(), -1.0f64..1.0).boxed(),
            |(b, seed, x0): &(usize, u64, f64)| {
                // Column by column, the magnitudes are the orbits of the map from each start.
                let mut r = Prng(*seed);
                let data: Vec<bool> = (0..*b).map(|_| r.next() & 1 == 1).collect();
                let (shape, m) = kpy("fh_ofdm_dcsk", "tx_fh_dcsk", args![data.clone(), *b], to_cplx)?;
                ensure!(shape == [*b, *b], "shape {shape:?}");
                for col in 0..*b {
                    let mut got: Vec<f64> = (0..*b).map(|row| m[row * b + col].re).collect();
                    let mut want: Vec<f64> = (0..*b)
                        .map(|i| {
                            let mut x = 0.001 + i as f64 / 10.0;
                            for _ in 0..col {
                                x = 1.0 - 2.0 * x * x;
                            }
                            x * nrz(data[i])
                        })
                        .collect();
                    got.sort_by(f64::total_cmp);
                    want.sort_by(f64::total_cmp);
                    equal(&format!("column {col}"), &got, &want, 1e-9)?;
                }
                let orbit = with(|h| {
                    let it = h.getattr("call")?.call1(("fh_ofdm_dcsk", "chebyshev", *x0))?;
                    it.iter()?.take(20).map(|v| v?.extract::<f64>()).collect::<PyResult<Vec<f64>>>()
                })?;
                let mut x = *x0;
                for (i, o) in orbit.iter().enumerate() {
                    let next = 1.0 - 2.0 * x * x;
                    ensure!((o - next).abs() < 1e-12, "chebyshev({x0}): value {i} is {o}, expected {next}");
                    x = *o;
                }
                // The map starts within [-1, 1] only.
                if x0.abs() > 0.01 {
                    let far = 1.0 / x0;
                    let r = with(|h| h.getattr("call")?.call1(("fh_ofdm_dcsk", "chebyshev", far))?.iter()?.take(1).map(|v| v?.extract::<f64>()).collect::<PyResult<Vec<f64>>>());
                    ensure!(r.as_ref().is_err_and(|e| e.contains("AssertionError")), "chebyshev({far}): {r:?}");
                }
                // Nested lists are counted, and flattened in order, at any depth.
                let (len, flat): (usize, Vec<usize>) = with(|h| {
                    let py = h.py();
                    let mut next = 0;
                    let root = nested(py, &mut r, 3, &mut next);
                    h.getattr("counts")?.call1((root,))?.extract().map(|(l, f): (usize, Vec<usize>)| {
                        (if f == (0..next).collect::<Vec<_>>() { l } else { usize::MAX }, f.into_iter().take(next).collect())
                    })
                })?;
                ensure!(len == flat.len(), "_len is {len}, _flatten is {flat:?}");
                held(true, &[format!("size:{b}")])
            },
        ),
    ]
}

/// A random tree of lists with the leaves 0, 1, 2, ... in order.
fn nested(py: Python<'_>, r: &mut Prng, depth: usize, next: &mut usize) -> PyObject {
    let n = r.below(5);
    let items: Vec<PyObject> = (0..n)
        .map(|_| {
            if depth > 0 && r.next() & 1 == 1 {
                nested(py, r, depth - 1, next)
            } else {
                *next += 1;
                (*next - 1).into_py(py)
            }
        })
        .collect();
    pyo3::types::PyList::new_bound(py, items).into_py(py)
}

// ---- C34 ------------------------------------------------------------------------------------

type Line = (String, Vec<f64>, Vec<f64>);

fn same_curve(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs()))
}

/// One of the lines is the curve, under its label if it has one.
fn drawn(lines: &[Line], what: &str, label: Option<&str>, x: &[f64], y: &[f64]) -> Result<(), String> {
    let hit = lines.iter().any(|l| label.map_or(true, |n| l.0 == n) && same_curve(&l.1, x) && same_curve(&l.2, y));
    ensure!(hit, "{what}: no line with label {label:?} from x = {x:?} to y = {y:?} among {} lines: {:?}", lines.len(), lines.iter().take(4).collect::<Vec<_>>());
    Ok(())
}

/// A table of detector values, as the analysis reports it: both hypotheses present.
fn table(r: &mut Prng, n: usize) -> Vec<Vec<f64>> {
    let x: Vec<f64> = (0..n).map(|_| r.range(-50.0, 50.0)).collect();
    let y: Vec<f64> = (0..n).map(|i| if i < 2 { i as f64 } else { (r.next() & 1) as f64 }).collect();
    let proba: Vec<f64> = (0..n).map(|_| (r.unit() * 40.0).floor() / 40.0).collect();
    let tpr: Vec<f64> = (0..n).map(|_| r.unit()).collect();
    let fpr: Vec<f64> = (0..n).map(|_| r.unit()).collect();
    let j = tpr.iter().zip(&fpr).map(|(t, f)| t - f).collect();
    vec![x, y, proba, tpr, fpr, j]
}

fn area(y: &[f64], p: &[f64]) -> f64 {
    let (mut wins, mut pairs) = (0.0, 0.0);
    for i in (0..y.len()).filter(|&i| y[i] == 1.0) {
        for k in (0..y.len()).filter(|&k| y[k] == 0.0) {
            pairs += 1.0;
            wins += if p[i] > p[k] { 1.0 } else if p[i] == p[k] { 0.5 } else { 0.0 };
        }
    }
    wins / pairs
}

fn top_j(t: &[Vec<f64>]) -> f64 {
    t[5].iter().fold(0.0f64, |a, b| a.max(b.abs()))
}

/// The density of `v` in `bins` equal cells at `at`, or None within rounding of an edge.
fn density(v: &[f64], bins: usize, at: f64) -> Option<f64> {
    let lo = v.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let w = (hi - lo) / bins as f64;
    let cell = (at - lo) / w;
    if (cell - cell.round()).abs() < 1e-6 {
        return None;
    }
    if cell < 0.0 || cell > bins as f64 {
        return Some(0.0);
    }
    // A value within rounding of an edge may count on either side of it.
    let c = cell.floor();
    if v.iter().any(|x| { let k = (x - lo) / w; (k - k.round()).abs() < 1e-6 && k.round() > 0.0 && k.round() < bins as f64 && (k.round() == c || k.round() == c + 1.0) }) {
        return None;
    }
    let n = v.iter().filter(|x| { let k = (*x - lo) / w; (k >= c && k < c + 1.0) || (k >= bins as f64 && c as usize == bins - 1) }).count();
    Some(n as f64 / (v.len() as f64 * w))
}

fn c34() -> Vec<Law> {
    vec![
        law(
            "curves_over_the_signal_to_noise_ratio",
            "at least two ratios",
            serial(120, 1800),
            || (1usize..8, 1usize..4, 4usize..40, 0usize..3, any::<u64>()).boxed(),
            |(ratios, names, n, which, seed): &(usize, usize, usize, usize, u64)| {
                let mut r = Prng(*seed);
                let which = ["one", "detectors", "modulations"][*which];
                let snrs: Vec<f64> = (0..*ratios).map(|_| 10f64.powf(r.range(-3.0, 2.0))).collect();
                let x: Vec<f64> = snrs.iter().map(|v| 10.0 * v.log10()).collect();
                let names: Vec<String> = (0..*names).map(|k| format!("detector {}", r.below(90) * 10 + k)).collect();
                let rows: Vec<Vec<Vec<Vec<f64>>>> = names.iter().map(|_| (0..*ratios).map(|_| table(&mut r, *n)).collect()).collect();
                let lines: Vec<Line> = with(|h| h.getattr("plotted")?.call1((which, rows.clone(), snrs.clone(), names.clone()))?.extract())?;
                for (name, tables) in names.iter().zip(&rows).take(if which == "one" { 1 } else { names.len() }) {
                    let label = (which != "one").then_some(name.as_str());
                    let js: Vec<f64> = tables.iter().map(|t| top_j(t)).collect();
                    drawn(&lines, which, label, &x, &js)?;
                    if which != "modulations" {
                        let aucs: Vec<f64> = tables.iter().map(|t| area(&t[1], &t[2])).collect();
                        drawn(&lines, which, label, &x, &aucs)?;
                    }
                }
                held(*ratios > 1, &[format!("which:{which}"), bucket("ratios", *ratios)])
            },
        ),
        law(
            "receiver_curves",
            "at least two rows",
            serial(120, 1800),
            || (1usize..6, 3usize..60, any::<u64>()).boxed(),
            |(many, n, seed): &(usize, usize, u64)| {
                let mut r = Prng(*seed);
                let rows: Vec<Vec<Vec<f64>>> = (0..*many).map(|_| table(&mut r, *n)).collect();
                let lines: Vec<Line> = with(|h| h.getattr("plotted")?.call1(("roc", vec![rows.clone()], vec![1.0; *many], vec!["a"]))?.extract())?;
                for t in &rows {
                    drawn(&lines, "receiver curve", None, &t[4], &t[3])?;
                }
                held(*n > 1, &[bucket("curves", *many)])
            },
        ),
        law(
            "areas_of_detector_values",
            "at least two ratios",
            serial(36, 400),
            || (1usize..5, 12usize..60, any::<u64>()).boxed(),
            |(ratios, n, seed): &(usize, usize, u64)| {
                let mut r = Prng(*seed);
                let mut draw = |m: f64| (0..*n).map(|_| m + r.gauss()).collect::<Vec<f64>>();
                let h0: Vec<Vec<f64>> = (0..*ratios).map(|_| draw(0.0)).collect();
                let h1: Vec<Vec<f64>> = (0..*ratios).map(|k| draw(k as f64)).collect();
                let snrs: Vec<f64> = (1..=*ratios).map(|k| k as f64 / 4.0).collect();
                let mut aucs = Vec::new();
                for (a, b) in h0.iter().zip(&h1) {
                    let Some((cols, ..)) = roc(a, b)? else { return trivial() };
                    aucs.push(area(&cols[1], &cols[2]));
                }
                let lines: Vec<Line> = with(|h| h.getattr("plotted_auc")?.call1((h0.clone(), h1.clone(), snrs.clone()))?.extract())?;
                drawn(&lines, "areas", None, &snrs.iter().map(|v| 10.0 * v.log10()).collect::<Vec<f64>>(), &aucs)?;
                held(*ratios > 1, &[bucket("ratios", *ratios)])
            },
        ),
        law(
            "histograms_and_threshold",
            "always",
            serial(120, 1500),
            || (20usize..400, 20usize..400, -3.0f64..6.0, 0.01f64..100.0, any::<bool>(), any::<u64>()).boxed(),
            |(n0, n1, shift, scale, given, seed): &(usize, usize, f64, f64, bool, u64)| {
                let mut r = Prng(*seed);
                // As many of either, where the analysis is asked for.
                let n1 = if *given { n1 } else { n0 };
                let h0: Vec<f64> = (0..*n0).map(|_| scale * r.gauss()).collect();
                let h1: Vec<f64> = (0..*n1).map(|_| scale * (shift + r.gauss())).collect();
                let rows = given.then(|| table(&mut r, 30));
                let Some(rows_used) = (match &rows { Some(t) => Some(t.clone()), None => roc(&h0, &h1)?.map(|c| c.0) }) else { return trivial() };
                let lines: Vec<Line> = with(|h| h.getattr("plotted_best")?.call1((h0.clone(), h1.clone(), rows.clone()))?.extract())?;
                let all = || h0.iter().chain(&h1).copied();
                let (lo, hi) = (all().fold(f64::INFINITY, f64::min), all().fold(f64::NEG_INFINITY, f64::max));
                let mut clear = 0;
                for (what, v) in [("without the signal", &h0), ("with the signal", &h1)] {
                    let hit = lines.iter().any(|l| {
                        let m = l.1.len();
                        m == 128 && (0..m).all(|i| {
                            let x = lo + (hi - lo) * i as f64 / (m - 1) as f64;
                            (l.1[i] - x).abs() <= 1e-9 * (hi - lo) && density(v, 128, x).map_or(true, |d| { clear += 1; (l.2[i] - d).abs() <= 1e-6 * (1.0 + d) })
                        })
                    });
                    ensure!(hit, "no line is the histogram of the {} values {what}", v.len());
                }
                // One vertical line where Youden's J is highest.
                let best = rows_used[5].iter().copied().fold(f64::NEG_INFINITY, f64::max);
                let hit = lines.iter().any(|l| l.1.len() == 2 && l.1[0] == l.1[1] && (0..rows_used[0].len()).any(|i| rows_used[0][i] == l.1[0] && (rows_used[5][i] - best).abs() < 1e-12));
                ensure!(hit, "no vertical line at the best threshold");
                held(clear > 100, &[format!("given:{given}"), bucket("values", *n0)])
            },
        ),
        law(
            "surfaces",
            "at least two rows",
            serial(90, 1200),
            || (2usize..12, 2usize..12, any::<bool>(), any::<bool>(), any::<u64>()).boxed(),
            |(h, w, log, half, seed): &(usize, usize, bool, bool, u64)| {
                // Odd sizes, as the mapping gives them.
                let (h, w) = (2 * h + 1, 2 * w + 1);
                let mut r = Prng(*seed);
                let s: Vec<Vec<C64>> = (0..h).map(|_| (0..w).map(|_| C64::new(r.gauss(), r.gauss())).collect()).collect();
                let which = if *half { "plot_ssca_triangle" } else { "plot_ssca_diamond" };
                let got: Vec<[Vec<Vec<f64>>; 3]> = with(|m| m.getattr("surfaces")?.call1((which, s.clone(), *log))?.extract())?;
                ensure!(got.len() == 1, "{which} draws {} surfaces", got.len());
                let [x, y, z] = &got[0];
                let cols = if *half { w / 2 + 1 } else { w };
                ensure!(z.len() == h && z.iter().all(|z| z.len() == cols), "{which} draws {} by {} of {h} by {w} points", z.len(), z[0].len());
                // On a logarithmic scale of one's choosing: a line through the first two levels.
                let level = |i: usize, k: usize| if *log { s[i][k].norm().ln() } else { s[i][k].norm() };
                let unit = if *log { (z[0][1] - z[0][0]) / (level(0, 1) - level(0, 0)) } else { 1.0 };
                let zero = if *log { z[0][0] - unit * level(0, 0) } else { 0.0 };
                ensure!(unit > 0.0, "{which}: higher values are drawn lower");
                for i in 0..h {
                    for k in 0..cols {
                        let cycle = if *half { 1.0 - k as f64 / (cols - 1) as f64 } else { -1.0 + 2.0 * k as f64 / (cols - 1) as f64 };
                        let f = -0.5 + i as f64 / (h - 1) as f64;
                        ensure!((x[i][k] - cycle).abs() < 1e-9 && (y[i][k] - f).abs() < 1e-9, "{which}: cell {i}, {k} is at {}, {} instead of {cycle}, {f}", x[i][k], y[i][k]);
                        ensure!((z[i][k] - zero - unit * level(i, k)).abs() < 1e-6 * (1.0 + z[i][k].abs()), "{which}: cell {i}, {k} has height {}", z[i][k]);
                    }
                }
                let l: Vec<f64> = (0..w).map(|_| r.gauss()).collect();
                let lines: Vec<Line> = with(|m| m.getattr("plotted_profile")?.call1((l.clone(),))?.extract())?;
                drawn(&lines, "plot_lambda", None, &(0..w).map(|i| i as f64 / (w - 1) as f64).collect::<Vec<f64>>(), &l)?;
                held(true, &[format!("which:{which}"), format!("log:{log}")])
            },
        ),
    ]
}

// ---- C29 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hypotheses {
    n0: usize,
    n1: usize,
    shift: f64,
    scale: f64,
    offset: f64,
    spread: f64,
    seed: u64,
}

impl Hypotheses {
    fn values(&self) -> (Vec<f64>, Vec<f64>) {
        let mut r = Prng(self.seed);
        let mut draw = |n: usize, m: f64, s: f64| (0..n).map(|_| self.offset + self.scale * (m + s * r.gauss())).collect::<Vec<f64>>();
        (draw(self.n0, 0.0, 1.0), draw(self.n1, self.shift, self.spread))
    }
}

fn hypotheses() -> BoxedStrategy<Hypotheses> {
    let n = prop_oneof![3 => (8usize..60).prop_map(|n| (n, n)), 1 => (60usize..400).prop_map(|n| (n, n)), 1 => (8usize..60, 8usize..60)];
    (n, prop_oneof![Just(0.0f64), -4.0f64..4.0], 0.05f64..5.0, -20.0f64..20.0, 0.1f64..2.0, any::<u64>())
        .prop_map(|((n0, n1), shift, scale, offset, spread, seed)| Hypotheses { n0, n1, shift, scale, offset, spread, seed })
        .boxed()
}

type Roc = (Vec<Vec<f64>>, f64, f64, f64);

fn roc(h0: &[f64], h1: &[f64]) -> Result<Option<Roc>, String> {
    with(|h| {
        let out = h.getattr("roc")?.call1((h0.to_vec(), h1.to_vec()))?;
        Ok(out.extract::<Roc>().ok())
    })
}

fn c29() -> Vec<Law> {
    vec![
        law(
            "every_row_is_a_threshold_test",
            "both hypotheses were drawn",
            serial(250, 4000),
            hypotheses,
            |c: &Hypotheses| {
                let (h0, h1) = c.values();
                let Some((cols, auc, youden, best)) = roc(&h0, &h1)? else {
                    // One class only in half of the split, or probabilities that coincide.
                    ensure!(c.n0 != c.n1 || c.n0 < 12, "no result for {} values of each hypothesis", c.n0);
                    return trivial();
                };
                let [x, y, p, tpr, fpr, j] = &cols[..] else { return Err("six columns".into()) };
                let n = x.len();
                ensure!(n == (c.n0 + c.n1).div_ceil(2), "{n} rows of {} values", c.n0 + c.n1);
                // Half of the values, each with its own hypothesis, none twice.
                let mut seen = std::collections::HashSet::new();
                for i in 0..n {
                    let from = if y[i] == 1.0 { &h1 } else { &h0 };
                    ensure!((y[i] == 0.0 || y[i] == 1.0) && from.contains(&x[i]), "row {i}: {} is no value of hypothesis {}", x[i], y[i]);
                    ensure!(seen.insert(x[i].to_bits()), "row {i}: {} twice", x[i]);
                    ensure!(i == 0 || p[i] >= p[i - 1], "row {i}: probabilities out of order");
                }
                // The probability is monotone in the value: one threshold on the value.
                let up = x[n - 1] >= x[0];
                for i in 1..n {
                    ensure!((x[i] > x[i - 1]) == up || p[i] == p[i - 1], "row {i}: the probability is not monotone in the value");
                }
                let ones = y.iter().filter(|v| **v == 1.0).count() as f64;
                let zeros = n as f64 - ones;
                let mut wins = 0.0;
                for i in 0..n {
                    let passed = |label: f64| (0..n).filter(|&k| y[k] == label && p[k] >= p[i]).count() as f64;
                    let (t, f) = (passed(1.0) / ones, passed(0.0) / zeros);
                    ensure!((tpr[i] - t).abs() < 1e-12 && (fpr[i] - f).abs() < 1e-12, "row {i} (value {}): rates {} and {} instead of {t} and {f}", x[i], tpr[i], fpr[i]);
                    ensure!((j[i] - (t - f)).abs() < 1e-12, "row {i}: J is {} instead of {}", j[i], t - f);
                    if y[i] == 1.0 {
                        wins += (0..n).filter(|&k| y[k] == 0.0).map(|k| if p[i] > p[k] { 1.0 } else if p[i] == p[k] { 0.5 } else { 0.0 }).sum::<f64>();
                    }
                }
                close_to("the area under the curve", auc, wins / (ones * zeros), 1e-9)?;
                let top = j.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                close_to("Youden's J", youden, top, 1e-12)?;
                let highest = j.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b));
                ensure!((0..n).any(|i| x[i] == best && (j[i] - highest).abs() < 1e-12), "the best threshold {best} does not reach {highest}");
                held(true, &[bucket("values", n), format!("up:{up}")])
            },
        ),
        law(
            "separated_and_equal_hypotheses",
            "always",
            serial(120, 2000),
            || (20usize..80, 0.1f64..5.0, -50.0f64..50.0, any::<u64>()).boxed(),
            |(n, scale, offset, seed): &(usize, f64, f64, u64)| {
                let mut r = Prng(*seed);
                let mut draw = |n: usize, m: f64| (0..n).map(|_| offset + scale * (m + r.unit())).collect::<Vec<f64>>();
                // Disjoint ranges: a perfect detector, with a threshold between them.
                let (h0, h1) = (draw(*n, 0.0), draw(*n, 5.0));
                let Some((_, auc, youden, best)) = roc(&h0, &h1)? else { return Err(format!("no result for {n} values")) };
                ensure!((auc - 1.0).abs() < 1e-12 && (youden - 1.0).abs() < 1e-12, "separated: area {auc}, J {youden}");
                let lowest = h1.iter().copied().fold(f64::INFINITY, f64::min);
                let highest = h0.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                ensure!(best > highest && best >= lowest, "separated: threshold {best} between {highest} and {lowest}");
                // The same distribution: near the diagonal.
                let (h0, h1) = (draw(400, 0.0), draw(400, 0.0));
                let Some((_, auc, youden, _)) = roc(&h0, &h1)? else { return Err("no result for 400 values".into()) };
                // The deviation of the area is 1/sqrt(12 * 200 / 2 * ..) ~ 0.029 per unit; the sign of the fit is free.
                ensure!((auc - 0.5).abs() < 0.25 && youden < 0.45, "equal: area {auc}, J {youden}");
                held(true, &[bucket("values", *n)])
            },
        ),
        law(
            "experiments_compare_noise_with_signals",
            "the experiment ran",
            serial(25, 300),
            || (0.1f64..5.0, 1usize..200, proptest::collection::vec(0.05f64..20.0, 1..4), 12usize..24, any::<bool>()).boxed(),
            |(level, per_bit, snrs, attempts, neg): &(f64, usize, Vec<f64>, usize, bool)| {
                // A steady signal through the experiment, watched by its detector.
                let level = if *neg { -level } else { *level };
                type Out = (Vec<(usize, f64, f64)>, Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<usize>);
                let out = with(|h| h.getattr("experiment")?.call1((level, *per_bit, snrs.clone(), *attempts))?.extract::<Option<Out>>());
                let out = match out {
                    Err(e) if e.contains("ValueError") => None,
                    out => out?,
                };
                let Some((seen, h0, h1, rates)) = out else { return trivial() };
                ensure!(h0.len() == snrs.len() && h1.len() == snrs.len() && rates.len() == snrs.len(), "{} ratios: {} and {} rows, {} analyses", snrs.len(), h0.len(), h1.len(), rates.len());
                let n = seen.first().map_or(0, |s| s.0);
                ensure!(n >= 4096 + 64 && n % per_bit == 0, "signals of {n} samples");
                ensure!(n < 4096 + 64 + 20 * per_bit || n <= 120 * per_bit, "signals of {n} samples, {per_bit} a bit");
                ensure!(seen.len() == 2 * snrs.len() * attempts, "the detector ran {} times", seen.len());
                for (k, snr) in snrs.iter().enumerate() {
                    ensure!(h0[k].len() == *attempts && h1[k].len() == *attempts && rates[k] == *attempts, "ratio {snr}: {} and {} values, {} rows", h0[k].len(), h1[k].len(), rates[k]);
                    let n0 = level * level / snr;
                    let tol = 7.0 * n0 / (n as f64).sqrt();
                    for (h, signal, name) in [(&h0[k], 0.0, "noise"), (&h1[k], level, "signal")] {
                        for v in h {
                            // Each value was computed from a signal the detector saw.
                            let Some((len, mean, std)) = seen.iter().find(|s| (s.1 * s.1 + s.2 * s.2 - v).abs() <= 1e-9 * v.abs()) else {
                                return Err(format!("ratio {snr}: {name} value {v} is no result of the detector"));
                            };
                            ensure!(*len == n, "signals of {n} and {len} samples");
                            ensure!((mean - signal).abs() < tol && (std - n0).abs() < tol, "ratio {snr}: {name} with mean {mean} and deviation {std} instead of {signal} and {n0}");
                        }
                    }
                }
                held(true, &[bucket("samples", n), format!("ratios:{}", snrs.len())])
            },
        ),
        law(
            "modulations_under_test",
            "always",
            serial(120, 1500),
            || (0usize..8, 1usize..60, any::<u64>()).boxed(),
            |(which, n, seed): &(usize, usize, u64)| {
                // Each is the library's modem at 65536 Hz, 256 Bd and 2 kHz, with its own detectors.
                let mut r = Prng(*seed);
                let bits: Vec<bool> = (0..*n).map(|_| r.next() & 1 == 1).collect();
                let it = || bits.iter().copied();
                let (fs, sr, fc) = (65_536usize, 256usize, 2000.0);
                let names = ["BFSK", "BPSK", "CDMA", "OFDM", "FH-CSS", "CSK", "DCSK", "FH-OFDM-DCSK"];
                let key = HadamardMatrix::new(16).key(0).clone();
                let want: Vec<f64> = match which {
                    0 => tx_bfsk_signal(it(), fs, sr, 1600.0, fc).collect(),
                    1 => tx_bpsk_signal(it(), fs, sr, fc).collect(),
                    2 => tx_cdma_bpsk_signal(it(), fs, sr, fc, &key).collect(),
                    3 => tx_ofdm_qpsk_signal(it(), 8, 6, fs, sr, fc).collect(),
                    4 => tx_fh_css_signal(it(), fs, sr, 2e3, 1e4, 8).collect(),
                    5 => tx_baseband_csk(it()).inflate(fs / sr).collect(),
                    6 => tx_baseband_dcsk(it()).inflate(fs / sr).collect(),
                    _ => tx_fh_ofdm_dcsk_signal_2(it(), fs, sr, fc).collect(),
                };
                let got: Vec<f64> = quiet(|| with(|h| h.getattr("send")?.call1((names[*which], bits.clone()))?.extract()))?;
                equal(names[*which], &got, &want, 1e-9)?;
                if got.len() >= 4096 + 64 {
                    let table: Vec<(String, f64)> = with(|h| h.getattr("under_test")?.call1((names[*which], got.clone()))?.extract())?;
                    let max_cut = kom("max_cut_detector", (got.clone(),), |x| x.extract::<f64>())?;
                    let energy = kom("energy_detector", (got.clone(),), |x| x.extract::<f64>())?;
                    ensure!(table.len() == 2, "{} is tested with {table:?}", names[*which]);
                    for (i, (n, v)) in [("MaxCut", max_cut), ("Radiometer", energy)].iter().enumerate() {
                        ensure!(table[i].0 == *n, "{} is tested with {table:?}", names[*which]);
                        close_to(n, table[i].1, *v, 1e-9)?;
                    }
                }
                let shared: usize = with(|h| h.getattr("fresh_detectors")?.call0()?.extract())?;
                ensure!(shared == 0, "two modulations share their results");
                held(true, &[format!("modulation:{}", names[*which])])
            },
        ),
    ]
}
