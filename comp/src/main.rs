mod base;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c31;
mod c32;
#[path = "../../mc/src/driver.rs"]
mod driver;
#[allow(dead_code)]
mod lang;
#[allow(dead_code, unused_macros)]
#[path = "../../mc/src/util.rs"]
mod util;
#[allow(dead_code)]
mod vm;
mod wf;

fn main() {
    std::process::exit(driver::run(vec![
        ("C20", c22::run_flow as fn(&util::Ctx)),
        ("C21", c22::run_exprs),
        ("C22", c22::run_objects),
        ("C23", c23::run),
        ("C24", c24::run),
        ("C25", c25::run),
        ("C26", c26::run),
        ("C31", c31::run),
        ("C32", c32::run),
    ]));
}
