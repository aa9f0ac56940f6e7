//! One function per property. Each is a pure function of the case's random numbers.

use crate::{Case, R};

mod build;
mod codec;
pub mod effort;
mod errors;
mod hostile;
mod import;
pub mod large;
mod memory;
mod lookups;
mod reading;
mod threads;
mod walking;
mod whole;
mod writing;

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub run: fn(&mut Case) -> R,
    /// Cases of the quick tier.
    pub quick: u64,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub static ALL: &[&[Prop]] = &[
    import::PROPS,
    reading::PROPS,
    walking::PROPS,
    lookups::PROPS,
    build::PROPS,
    whole::PROPS,
    codec::PROPS,
    hostile::PROPS,
    threads::PROPS,
    memory::PROPS,
    errors::PROPS,
    writing::PROPS,
    effort::PROPS,
];

pub fn all() -> impl Iterator<Item = &'static Prop> {
    ALL.iter().flat_map(|p| p.iter())
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().find(|p| p.id == id)
}

/// Shared by the assumptions of most properties.
pub const ORACLE: &str = "The oracle's own protobuf codec, SHA-256 (known-answer tested on every run) and reference models are right; they share no code with the crate.";
pub const EXPLORED: &str = "Only the generated executions are decided; inputs outside the generators' shapes and sizes are not covered.";

pub fn run(p: &Prop, c: &mut Case) -> R {
    match c.large {
        Some(k) => large::run(p, c, k),
        None => (p.run)(c),
    }
}
