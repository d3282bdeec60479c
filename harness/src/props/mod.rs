use crate::explore::{Family, Tier};
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c18;
pub mod c19;
pub mod c22;
pub mod c20;
pub mod c12;
pub mod c11;
pub mod c17;
pub mod c21;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;

type Make = fn(Tier) -> Vec<Family>;

pub fn all() -> Vec<(&'static str, Make)> {
    vec![
        ("C01", c01::families as Make),
        ("C02", c02::families),
        ("C03", c03::families),
        ("C04", c04::families),
        ("C05", c05::families),
        ("C06", c06::families),
        ("C07", c07::families),
        ("C08", c08::families),
        ("C09", c09::families),
        ("C10", c10::families),
        ("C11", c11::families),
        ("C12", c12::families),
        ("C13", c13::families),
        ("C14", c14::families),
        ("C15", c15::families),
        ("C16", c16::families),
        ("C18", c18::families),
        ("C19", c19::families),
        ("C20", c20::families),
        ("C22", c22::families),
        ("C17", c17::families),
        ("C21", c21::families),
        ("C23", c23::families),
        ("C24", c24::families),
        ("C25", c25::families),
        ("C26", c26::families),
        ("C27", c27::families),
    ]
}
