//! Circuit harness: the circom sources interpreted as constraint systems, with every freedom of the prover explored.
mod build; mod fd; mod lang; mod solve; mod lab; mod spec; mod c01; mod rest;
fn main() { mccore::main_with(&[("H02", rest::h02), ("C01", c01::c01), ("C02", rest::c02), ("C03", rest::c03), ("C04", rest::c04), ("C05", rest::c05), ("C06", rest::c06)]) }
