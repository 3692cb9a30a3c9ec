use crate::engine::Law;

// One feature per module, so that a check compiles what it needs only.
#[cfg(feature = "psk")]
pub mod psk;
#[cfg(feature = "cdma")]
pub mod cdma;
#[cfg(feature = "ofdm")]
pub mod ofdm;
#[cfg(feature = "hop")]
pub mod hop;
#[cfg(feature = "tones")]
pub mod tones;
#[cfg(feature = "chaos")]
pub mod chaos;
#[cfg(feature = "iters")]
pub mod iters;
#[cfg(feature = "metrics")]
pub mod metrics;
#[cfg(feature = "spectral")]
pub mod spectral;
#[cfg(feature = "meta")]
pub mod meta;
#[cfg(feature = "py")]
pub mod py;
#[cfg(feature = "inner")]
pub mod inner;

pub struct Property {
    pub id: &'static str,
    pub laws: fn() -> Vec<Law>,
    pub assumptions: &'static [&'static str],
}

#[allow(clippy::vec_init_then_push, unused_mut)]
pub fn all() -> Vec<Property> {
    let mut v: Vec<Property> = Vec::new();
    #[cfg(feature = "psk")]
    v.extend(psk::properties());
    #[cfg(feature = "cdma")]
    v.extend(cdma::properties());
    #[cfg(feature = "ofdm")]
    v.extend(ofdm::properties());
    #[cfg(feature = "hop")]
    v.extend(hop::properties());
    #[cfg(feature = "tones")]
    v.extend(tones::properties());
    #[cfg(feature = "chaos")]
    v.extend(chaos::properties());
    #[cfg(feature = "iters")]
    v.extend(iters::properties());
    #[cfg(feature = "metrics")]
    v.extend(metrics::properties());
    #[cfg(feature = "spectral")]
    v.extend(spectral::properties());
    #[cfg(feature = "meta")]
    v.extend(meta::properties());
    #[cfg(feature = "py")]
    v.extend(py::properties());
    #[cfg(feature = "inner")]
    v.extend(inner::properties());
    v
}
