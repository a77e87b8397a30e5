//! The table of properties and their cases.
use crate::util::*;

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Ctx) -> R<()>,
    pub workers: usize,
    pub quick_s: u64,
    pub thorough_s: u64,
    pub max_cases: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub must_observe: &'static [&'static str],
    pub tolerates_panics: bool,
    pub concurrent: bool,
    pub san: bool,
    pub cpu_limit_s: u64,
}
impl Prop {
    pub fn evidence_id(&self) -> &str {
        &self.id[..3]
    }
}

pub const BASE: Prop = Prop {
    id: "",
    case: |_| Ok(()),
    workers: 8,
    quick_s: 25,
    thorough_s: 300,
    max_cases: 0,
    level: "exploration",
    rule: "",
    assumptions: &[],
    must_observe: &[],
    tolerates_panics: false,
    concurrent: false,
    san: false,
    cpu_limit_s: 90,
};

mod builders;
mod concurrent;
mod crash;
mod faults;
pub mod formats;
mod history;
pub mod labels;
mod lowlevel;
mod lru;
pub mod packs;
pub mod reopen;
mod upkeep;

pub fn table() -> Vec<Prop> {
    let mut v = vec![];
    history::register(&mut v);
    packs::register(&mut v);
    reopen::register(&mut v);
    labels::register(&mut v);
    crash::register(&mut v);
    faults::register(&mut v);
    lru::register(&mut v);
    builders::register(&mut v);
    concurrent::register(&mut v);
    formats::register(&mut v);
    lowlevel::register(&mut v);
    upkeep::register(&mut v);
    v
}
pub fn find(id: &str) -> Option<Prop> {
    table().into_iter().find(|p| p.id == id)
}
