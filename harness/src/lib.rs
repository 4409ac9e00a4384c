//! Harnesses: each entry point states a property of librrb's public interface over symbolic inputs.
#[macro_use]
mod util;
pub mod model;
pub mod sym;
mod tracked;

mod basic;
mod edge;
mod hist;
mod order;
mod threads;
mod views;

type Entry = (&'static str, fn());

/// Entry points by name, for replaying a counterexample natively.
pub static ENTRIES: &[&[Entry]] = &[basic::ENTRIES, edge::ENTRIES, views::ENTRIES, order::ENTRIES, hist::rc::ENTRIES, hist::arc::ENTRIES, threads::ENTRIES];
