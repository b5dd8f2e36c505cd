//! The scenarios, one module per property.

use crate::util::Tier;
use mccore::explore::Case;

pub struct Property {
    pub cases: fn(Tier) -> Vec<Case>,
    /// "model_checking" or "bounded_exhaustive" ...
    pub level: &'static str,
    /// what is enumerated and what counts as a violation
    pub rule: &'static str,
}

mod enc;
mod sizes;

macro_rules! properties {
    ($($m:ident $id:literal),* $(,)?) => {
        $(mod $m;)*
        pub fn all() -> Vec<(&'static str, Property)> {
            vec![$(($id, $m::property())),*]
        }
    };
}

properties! {
    c01 "C01",
    c02 "C02",
    c03 "C03",
    c04 "C04",
    c05 "C05",
    c06 "C06",
    c07 "C07",
    c08 "C08",
    c09 "C09",
    c10 "C10",
    c11 "C11",
    c12 "C12",
    c13 "C13",
    c14 "C14",
    c15 "C15",
    c16 "C16",
    c17 "C17",
    c18 "C18",
    c19 "C19",
    c20 "C20",
    c21 "C21",
    c22 "C22",
    c23 "C23",
    c24 "C24",
}
