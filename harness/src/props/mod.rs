use crate::engine::*;
use crate::tool::Ctx;

pub mod cmds;
pub mod diag;
pub mod facts;
pub mod dis;
pub mod fuzz;
pub mod lang;
pub mod large;
pub mod macros;
pub mod pics;
pub mod sinks;
pub mod text;

/// A genuine defect that is recorded rather than repaired.
pub struct Known {
    pub property: &'static str,
    pub what: &'static str,
    pub still_fails: fn(&mut Ctx) -> Result<bool, Stop>,
}

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(lang::props());
    v.extend(macros::props());
    v.extend(text::props());
    v.extend(dis::props());
    v.extend(fuzz::props());
    v.extend(pics::props());
    v.extend(cmds::props());
    v.extend(diag::props());
    v.extend(facts::props());
    v.extend(sinks::props());
    v
}

pub fn known(id: &str) -> Vec<Known> {
    let v: Vec<Known> = vec![];
    v.into_iter().filter(|k| k.property == id).collect()
}
