//! C30: two compilations of one installation at the same time, under every schedule.
use std::collections::HashMap;
use std::sync::Mutex;

use scc_lib::api::SccResult;

use crate::hist::{strict_key, FilesKey, BACKUP, CUSTOM, CUSTOM_OUT, OLD_STAMP, OUT, STAMP};
use crate::shim::{self, Fault, Ran, Sched};
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};
use crate::world::{self, get, known, put, show, Node, Tree, CACHE};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Job {
    custom: bool,
    separate: bool,
}

const D: Job = Job { custom: false, separate: false };
const S: Job = Job { custom: false, separate: true };
const C: Job = Job { custom: true, separate: false };
const CS: Job = Job { custom: true, separate: true };

const STARTS: [&str; 9] = [
    "a new installation",
    "compiled before",
    "compiled and updated",
    "compiled to a separate file",
    "only the backup is left",
    "a bundle at the custom path",
    "compiled by an old version",
    "compiled at both paths",
    "compiled and restored",
];

fn start(i: usize) -> Tree {
    let game = |g: usize, time| Node { data: known().games[g].clone(), time };
    let mut t = Tree::from([(CACHE.to_owned(), game(0, 1))]);
    let mut clock = 10;
    let mut compile = |t: &mut Tree, job: Job| {
        put(t, 1);
        let (r, rep) = shim::with(Fault::None, clock, || scc_lib::compile(&settings(job)));
        drop(r);
        clock = rep.clock;
        *t = get();
    };
    match i {
        0 => {}
        1 => compile(&mut t, D),
        2 => {
            compile(&mut t, D);
            t.insert(CACHE.into(), game(1, 50));
        }
        3 => compile(&mut t, S),
        4 => {
            t.remove(CACHE);
            t.insert(BACKUP.into(), game(0, 1));
        }
        5 => {
            t.insert(CUSTOM.into(), game(1, 2));
        }
        6 => {
            compile(&mut t, D);
            if let Some(s) = t.remove(STAMP) {
                t.insert(OLD_STAMP.into(), s);
            }
        }
        7 => {
            compile(&mut t, D);
            compile(&mut t, C);
        }
        _ => {
            compile(&mut t, D);
            t.insert(CACHE.into(), game(0, 50));
        }
    }
    t
}

fn settings(job: Job) -> scc_lib::api::SccSettings {
    let mut set = world::settings();
    let r6 = world::r6();
    if job.custom {
        set.custom_cache_file = Some(r6.join(CUSTOM).into());
    }
    if job.separate {
        set.output_cache_file = Some(r6.join(if job.custom { CUSTOM_OUT } else { OUT }).into());
    }
    set
}

struct Case {
    start: usize,
    tree: Tree,
    jobs: [Job; 2],
    scripts: usize,
    /// what comes of the two one after the other, either first
    serial: Vec<([bool; 2], FilesKey)>,
}

struct Outcome {
    ok: [bool; 2],
    told: [String; 2],
    files: Tree,
    ran: Ran,
}

fn run(case: &Case, first: usize, switches: &[usize]) -> Outcome {
    put(&case.tree, case.scripts);
    let sched = Sched::new(first, switches, 100);
    let one = |me: usize| {
        let sched = sched.clone();
        let job = case.jobs[me];
        move || {
            sched.run(me, || match guarded(|| scc_lib::compile(&settings(job))) {
                Err(p) => (false, format!("panicked: {p}")),
                Ok(r) => match &*r {
                    SccResult::Success(_) => (true, "succeeded".to_owned()),
                    SccResult::Error(e) => (false, format!("failed: {}", e.to_string().lines().next().unwrap_or_default())),
                },
            })
        }
    };
    let (a, b) = std::thread::scope(|s| {
        let a = s.spawn(one(0));
        let b = s.spawn(one(1));
        (a.join().unwrap(), b.join().unwrap())
    });
    Outcome {
        ok: [a.0, b.0],
        told: [a.1, b.1],
        files: get(),
        ran: sched.report(),
    }
}

fn explore(ctx: &Ctx, name: &str, list: &[(usize, [Job; 2], usize)], preemptions: usize) {
    known();
    world::enter();
    let cases: Vec<Case> = list
        .iter()
        .map(|(start_, jobs, scripts)| {
            let mut c = Case {
                start: *start_,
                tree: start(*start_),
                jobs: *jobs,
                scripts: *scripts,
                serial: vec![],
            };
            for first in 0..2 {
                let o = run(&c, first, &[]);
                c.serial.push((o.ok, strict_key(&o.files)));
            }
            c
        })
        .collect();
    // at which points a schedule can be switched once more
    let memo: Mutex<HashMap<(usize, usize, Vec<usize>), Vec<usize>>> = Mutex::default();
    ctx.explore(name, |ch: &mut Chooser, cx: &mut Cx| -> Result<(), Fail> {
        world::enter();
        let ci = ch.pick(cases.len());
        let case = &cases[ci];
        // two of the same kind: either is the first
        let first = if case.jobs[0] == case.jobs[1] { 0 } else { ch.pick(2) };
        let mut switches = vec![];
        for _ in 0..preemptions {
            let key = (ci, first, switches.clone());
            let known = memo.lock().unwrap().get(&key).cloned();
            let open = match known {
                Some(o) => o,
                None => {
                    let o: Vec<usize> = {
                        let last = switches.last().copied().unwrap_or(0);
                        run(case, first, &switches).ran.open.into_iter().filter(|p| *p > last).collect()
                    };
                    memo.lock().unwrap().insert(key, o.clone());
                    o
                }
            };
            let n = ch.pick(open.len() + 1);
            if n == 0 {
                break;
            }
            switches.push(open[n - 1]);
        }
        cx.case(|| format!("{} / {:?} / {:?} switched at {switches:?}", STARTS[case.start], case.jobs[0], case.jobs[1]));
        let o = run(case, first, &switches);
        cx.state();
        cx.trace();
        for _ in 0..o.ran.points {
            cx.step();
        }
        let key = strict_key(&o.files);
        let same = case.serial.iter().any(|(ok, files)| *ok == o.ok && *files == key);
        if same && !o.ran.deadlock {
            return Ok(());
        }
        let tell = |j: Job| {
            let mut s = if j.custom { "at the custom path".to_owned() } else { "at the default path".to_owned() };
            if j.separate {
                s += " to a separate file";
            }
            s
        };
        let mut text = format!(
            "{}: one compiles {}, one {}; scripts {}; {} first, switched at {switches:?}",
            STARTS[case.start],
            tell(case.jobs[0]),
            tell(case.jobs[1]),
            case.scripts,
            ["the one", "the other"][first]
        );
        let id = format!("{}; {}; {}", STARTS[case.start], tell(case.jobs[0]), tell(case.jobs[1]));
        if o.ran.deadlock {
            text += "\n  they wait for each other";
        }
        text += &format!("\n  the one {}\n  the other {}\n  before:\n{}  after:\n{}", o.told[0], o.told[1], show(&case.tree), show(&o.files));
        text += &format!("  one after the other: {:?}\n", case.serial.iter().map(|s| (s.0, s.1.keys().collect::<Vec<_>>())).collect::<Vec<_>>());
        text += "  in this order:\n";
        for (me, what) in &o.ran.trace {
            text += &format!("    {}{what}\n", ["", "                                        "][*me]);
        }
        fail(id, text)
    });
}

pub fn run_all(ctx: &Ctx) {
    let mut wide = vec![];
    for start in 0..STARTS.len() {
        for jobs in [[D, D], [D, S], [S, S], [C, C], [D, C], [C, CS], [CS, CS], [S, CS]] {
            for scripts in [1, 3] {
                wide.push((start, jobs, scripts));
            }
        }
    }
    explore(ctx, "switched once", &wide, 1);
    let some: Vec<_> = wide.iter().filter(|(_, _, s)| *s == 1).copied().collect();
    if ctx.thorough() {
        explore(ctx, "switched twice", &wide, 2);
        explore(ctx, "switched three times", &some, 3);
    } else {
        explore(ctx, "switched twice", &some, 2);
    }
}
