//! Spartan through its public interface.
mod complete; mod links;
mod s01;
mod sound;
mod spec;
mod sys;
fn main() { mccore::main_with(&[("S01", s01::run), ("S03", complete::s03), ("S05", complete::s05), ("S04", sound::s04), ("S06", sound::s06)]) }
