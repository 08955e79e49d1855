use crate::engine::Sub;
mod batch;
mod content;
mod convert;
mod errors;
pub mod history;
mod ids;
mod words;
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
mod forms;
#[cfg(not(feature = "fam_a"))]
mod gating;
mod messages;
mod plain;
mod robust;
#[cfg(feature = "fam_c")]
mod modern;
#[cfg(feature = "fam_b")]
mod tasks;
mod text;
mod types_props;
mod wrap;

pub fn all() -> Vec<Sub> {
    let mut v = vec![];
    types_props::subs(&mut v);
    messages::subs(&mut v);
    robust::subs(&mut v);
    #[cfg(feature = "fam_c")]
    modern::subs(&mut v);
    convert::subs(&mut v);
    content::subs(&mut v);
    plain::subs(&mut v);
    batch::subs(&mut v);
    #[cfg(feature = "fam_b")]
    tasks::subs(&mut v);
    text::subs(&mut v);
    wrap::subs(&mut v);
    ids::subs(&mut v);
    errors::subs(&mut v);
    words::subs(&mut v);
    history::subs(&mut v);
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    forms::subs(&mut v);
    #[cfg(not(feature = "fam_a"))]
    gating::subs(&mut v);
    v
}
