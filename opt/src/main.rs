mod c18;
#[path = "../../mc/src/driver.rs"]
mod driver;
#[allow(dead_code)]
#[path = "/repo/scc/cli/src/opts.rs"]
mod opts;
#[allow(dead_code, unused_macros)]
#[path = "../../mc/src/util.rs"]
mod util;

fn main() {
    std::process::exit(driver::run(vec![("C18", c18::run as fn(&util::Ctx)), ("C19", c18::run19)]));
}
