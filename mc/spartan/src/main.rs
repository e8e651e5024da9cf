//! Spartan's internal layers, reached through the crate's verification hook.
mod conv;
mod g04;
mod s02;
mod s07;
mod s08;
mod s09;
mod s10;
#[path = "../../snark/src/spec.rs"] #[allow(dead_code)] mod spec;
#[path = "../../snark/src/sys.rs"] #[allow(dead_code)] mod sys;
fn main() { mccore::main_with(&[("G04", g04::g04), ("S02", s02::s02), ("S07", s07::s07), ("S08", s08::s08), ("S09", s09::s09), ("S10", s10::s10)]) }
