use crate::report::Report;
use crate::rng::Rng;
use crate::Cx;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
#[cfg(not(feature = "plain"))]
pub mod c13;
#[cfg(not(feature = "plain"))]
pub mod c14;
pub mod c15;
#[cfg(not(feature = "plain"))]
pub mod c16;
#[cfg(not(feature = "plain"))]
pub mod c17;
pub mod c18;
#[cfg(not(feature = "plain"))]
pub mod c19;
pub mod c20;
#[cfg(not(feature = "plain"))]
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Cx, &mut Rng, &mut Report),
    /// Number of cases of a quick run.
    pub quick: u64,
    /// The first cases, which are executed regardless of the time limit.
    pub directed: u64,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", case: c01::case, quick: 12000, directed: 0 },
    Prop { id: "C02", case: c02::case, quick: 2400, directed: 0 },
    Prop { id: "C03", case: c03::case, quick: 120000, directed: 0 },
    Prop { id: "C04", case: c04::case, quick: 60000, directed: 0 },
    Prop { id: "C05", case: c05::case, quick: 300000, directed: 0 },
    Prop { id: "C06", case: c06::case, quick: 200000, directed: 0 },
    Prop { id: "C07", case: c07::case, quick: 120000, directed: 0 },
    Prop { id: "C08", case: c08::case, quick: 300000, directed: 1 },
    Prop { id: "C09", case: c09::case, quick: 30000, directed: 1 },
    Prop { id: "C10", case: c10::case, quick: 30000, directed: 0 },
    Prop { id: "C11", case: c11::case, quick: 36000, directed: 0 },
    Prop { id: "C12", case: c12::case, quick: 40000, directed: 0 },
    #[cfg(not(feature = "plain"))]
    Prop { id: "C13", case: c13::case, quick: 16000, directed: 0 },
    #[cfg(not(feature = "plain"))]
    Prop { id: "C14", case: c14::case, quick: 50000, directed: 0 },
    Prop { id: "C15", case: c15::case, quick: 36000, directed: 0 },
    #[cfg(not(feature = "plain"))]
    Prop { id: "C16", case: c16::case, quick: 9000, directed: 0 },
    #[cfg(not(feature = "plain"))]
    Prop { id: "C17", case: c17::case, quick: 3000, directed: 0 },
    Prop { id: "C18", case: c18::case, quick: 6000, directed: 0 },
    #[cfg(not(feature = "plain"))]
    Prop { id: "C19", case: c19::case, quick: 8000, directed: 0 },
    Prop { id: "C20", case: c20::case, quick: 100000, directed: 0 },
    #[cfg(not(feature = "plain"))]
    Prop { id: "C21", case: c21::case, quick: 14000, directed: 0 },
    Prop { id: "C22", case: c22::case, quick: 30000, directed: 0 },
    Prop { id: "C23", case: c23::case, quick: 2400, directed: 0 },
    Prop { id: "C24", case: c24::case, quick: 8000, directed: 0 },
    Prop { id: "C25", case: c25::case, quick: 24000, directed: 0 },
];

pub fn features() -> &'static str {
    if cfg!(feature = "native") {
        "native"
    } else if cfg!(feature = "pure") {
        "pure"
    } else if cfg!(feature = "purest") {
        "purest"
    } else {
        "raw"
    }
}
