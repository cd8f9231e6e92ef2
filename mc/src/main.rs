mod c01;
mod alloc;
mod c03;
mod c06;
mod c07;
mod c09;
mod c11;
mod c12;
mod c13;
mod c15;
mod c16;
mod c17;
mod dec;
mod driver;
mod ex;
mod gen;
mod model;
mod ops;
mod util;

use util::Ctx;

fn checks() -> Vec<(&'static str, fn(&Ctx))> {
    vec![
        ("C01", c01::run as fn(&Ctx)),
        ("C02", c01::run2),
        ("C03", c03::run),
        ("C04", c03::run4),
        ("C05", c03::run5),
        ("C06", c06::run),
        ("C07", c07::run),
        ("C08", c06::run8),
        ("C09", c09::run),
        ("C10", c09::run10),
        ("C11", c11::run),
        ("C12", c12::run),
        ("C13", c13::run),
        ("C15", c15::run),
        ("C16", c16::run),
        ("C17", c17::run),
        ("C14", c13::run14),
    ]
}

fn main() {
    std::process::exit(driver::run(checks()));
}
