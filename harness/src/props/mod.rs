use crate::engine::{DynProp, Wrap};
use std::sync::Arc;

#[cfg(feature = "full")]
mod conc;
#[cfg(feature = "full")]
pub mod crossin;
#[cfg(feature = "full")]
mod ctl;
#[cfg(feature = "full")]
mod cycle;
mod feat;
#[cfg(feature = "full")]
mod hist;
#[cfg(feature = "full")]
mod life;
#[cfg(feature = "full")]
mod pure;
#[cfg(feature = "full")]
mod reads;
#[cfg(feature = "full")]
mod stderr;
#[cfg(feature = "full")]
mod term;
#[cfg(feature = "full")]
mod term2;
#[cfg(feature = "full")]
mod term3;
#[cfg(feature = "full")]
mod vt52;

#[cfg(not(feature = "full"))]
pub fn all() -> Vec<Arc<dyn DynProp>> {
    vec![Arc::new(Wrap(feat::Features))]
}
#[cfg(feature = "full")]
pub fn all() -> Vec<Arc<dyn DynProp>> {
    vec![
        Arc::new(Wrap(pure::C01)),
        Arc::new(Wrap(ctl::Control)),
        Arc::new(Wrap(pure::C03)),
        Arc::new(Wrap(pure::C04)),
        Arc::new(Wrap(hist::C05)),
        Arc::new(Wrap(hist::C06)),
        Arc::new(Wrap(hist::C07)),
        Arc::new(Wrap(term::Screen)),
        Arc::new(Wrap(term::Editing)),
        Arc::new(Wrap(term::Recall)),
        Arc::new(Wrap(term::Completion)),
        Arc::new(Wrap(term2::Notices)),
        Arc::new(Wrap(term::PromptStatus)),
        Arc::new(Wrap(term::Suspending)),
        Arc::new(Wrap(term3::Decoding)),
        Arc::new(Wrap(term3::Pipe)),
        Arc::new(Wrap(term3::Mode)),
        Arc::new(Wrap(term3::Bells)),
        Arc::new(Wrap(life::Shutdown)),
        Arc::new(Wrap(vt52::VtTerm)),
        Arc::new(Wrap(reads::Reading)),
        Arc::new(Wrap(conc::Concurrent)),
        Arc::new(Wrap(cycle::Lifecycle)),
        Arc::new(Wrap(cycle::Panics)),
        Arc::new(Wrap(stderr::Captured)),
        Arc::new(Wrap(pure::C24)),
        Arc::new(Wrap(pure::C27)),
        Arc::new(Wrap(feat::Features)),
        Arc::new(Wrap(crossin::CrossInput)),
    ]
}
