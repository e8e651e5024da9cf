mod fields;
mod curve;
use mccore::main_with;
fn main() {
    main_with(&[("F03", fields::f03), ("F04", fields::f04), ("F05", fields::f05),
        ("G01", curve::g01), ("G02", curve::g02), ("G03", curve::g03)])
}
