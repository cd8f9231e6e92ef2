#[path = "../../mc/src/driver.rs"]
mod driver;
mod conc;
mod hist;
mod shim;
mod c29;
#[allow(dead_code, unused_macros)]
#[path = "../../mc/src/util.rs"]
mod util;
mod world;

fn main() {
    let code = driver::run(vec![
        ("C27", hist::run as fn(&util::Ctx)),
        ("C28", hist::run_harm),
        ("C29", c29::run),
        ("C30", conc::run_all),
    ]);
    world::Root::remove();
    std::process::exit(code);
}
