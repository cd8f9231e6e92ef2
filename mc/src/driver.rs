//! command line of a harness: one check per run, in a supervised process
use std::path::{Path, PathBuf};

use crate::util::{self, Ctx, Tier};

pub type Checks = Vec<(&'static str, fn(&Ctx))>;

fn known_file() -> PathBuf {
    std::env::var_os("VERIF_KNOWN").map_or_else(|| PathBuf::from("/verif/known_findings.txt"), PathBuf::from)
}

pub fn run(checks: Checks) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first().cloned() else {
        for (id, _) in checks {
            println!("{id}");
        }
        return 2;
    };
    let Some((_, f)) = checks.into_iter().find(|(i, _)| *i == id) else {
        eprintln!("no such check: {id}");
        return 2;
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ if args.iter().any(|a| a == "--thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let replay = args.iter().position(|a| a == "--replay").map(|i| {
        let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let get = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(k))
                .unwrap_or_default()
                .to_owned()
        };
        let choices = get("choices=").split_whitespace().map(|s| s.parse().unwrap()).collect();
        (get("section="), choices)
    });
    let worker = replay.is_some() || std::env::var_os("MC_WORKER").is_some();
    if worker {
        util::install_panic_hook();
        let known = util::load_known(&known_file(), &id);
        let ctx = Ctx::new(&id, tier, known, replay);
        f(&ctx);
        return ctx.finish();
    }
    // supervise: if the code under test kills the process, that is a violation too
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.args(&args).env("MC_WORKER", "1");
    if tier == Tier::Thorough {
        cmd.env("VERIF_TIER", "thorough");
    }
    let status = cmd.status().expect("worker");
    match status.code() {
        Some(c @ 0..=2) => c,
        other => {
            use std::os::unix::process::ExitStatusExt;
            let what = match other {
                Some(101) => {
                    eprintln!("harness error");
                    return 2;
                }
                _ => format!("the process was ended by signal {:?} / code {other:?}", status.signal()),
            };
            let dir = std::env::var_os("VERIF_OUT").map_or_else(|| PathBuf::from("/verif/evidence"), PathBuf::from);
            let crumbs = util::read_crumbs(&Path::new(&dir).join(format!("{id}.crumbs")));
            let mut n = 0;
            for (section, path) in &crumbs {
                let rp = util::write_replay(&id, n, section, path, "crash", &what);
                println!("  {section}: {what} (one of the executions in flight)");
                println!("VIOLATION property={id} replay={}", rp.display());
                n += 1;
            }
            if n == 0 {
                let rp = util::write_replay(&id, 0, "?", &[], "crash", &what);
                println!("VIOLATION property={id} replay={}", rp.display());
            }
            util::crash_evidence(&id, tier, &what);
            1
        }
    }
}
