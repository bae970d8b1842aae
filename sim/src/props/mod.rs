use crate::trace::{Prof, Trace};
use simrt::Rng;

#[cfg(feature = "inst")]
mod fast;
mod faults;
#[cfg(not(feature = "inst"))]
mod flat;
#[cfg(not(feature = "inst"))]
mod float;
#[cfg(not(feature = "inst"))]
mod nested;
#[cfg(not(feature = "inst"))]
mod sink;
#[cfg(not(feature = "inst"))]
mod stream;
#[cfg(feature = "inst")]
mod threads;
#[cfg(not(feature = "inst"))]
mod walk;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, Tier) -> Trace,
    /// what happens without faults, in a pristine process; Some(i): line i alone
    pub profile: Option<fn(&Trace, Option<usize>) -> Result<(), String>>,
    pub per_line: bool,
    /// all lines of the thread of that line instead
    pub per_thread: bool,
    /// decides faults, entropy and schedule
    pub place: fn(&mut Trace, &Prof, &mut Rng),
    pub run: fn(&Trace, &Prof) -> Result<(), String>,
    /// runs per workload
    pub repeat: u64,
    pub threads: bool,
    /// workloads
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub time_unit: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
    pub counters: &'static [(usize, &'static str)],
    pub faults: &'static [(usize, &'static str)],
}

#[cfg(feature = "inst")]
pub fn all() -> Vec<Prop> {
    vec![threads::c07(), fast::c08()]
}
#[cfg(not(feature = "inst"))]
pub fn all() -> Vec<Prop> {
    vec![flat::c01(), flat::c02(), faults::c03(), faults::c04(), sink::c05(), stream::c06(), nested::c09(), walk::c10(), float::c11()]
}

pub fn rehash(t: &mut Trace, _: &Prof, r: &mut Rng) {
    t.entropy = r.next();
}
