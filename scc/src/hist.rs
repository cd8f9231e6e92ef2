//! C27, C28: histories of an installation, explored state by state until nothing new turns up.
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

use scc_lib::api::SccResult;

use crate::shim::{self, Fault};
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};
use crate::world::{self, get, known, put, show, Node, Tree, CACHE, GAMES, GOOD};

pub const BACKUP: &str = "cache/final.redscripts.bk";
pub const STAMP: &str = "cache/final.redscripts.ts";
pub const OLD_STAMP: &str = "cache/redscript.ts";
pub const OUT: &str = "cache/out/final.redscripts";
pub const CUSTOM: &str = "cache/modded/final.redscripts";
const CUSTOM_BACKUP: &str = "cache/modded/final.redscripts.bk";
const CUSTOM_STAMP: &str = "cache/modded/final.redscripts.ts";
pub const CUSTOM_OUT: &str = "cache/modded/out.redscripts";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Harm {
    No,
    Kill,
    Torn,
    Full,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// the game brings a new version of the bundle
    Update,
    /// the game puts its bundle back
    Verify,
    /// another tool writes a bundle of its own to the custom path
    Deploy,
    Drop(&'static str),
    /// one file takes the place of another
    Move(&'static str, &'static str),
    Compile {
        custom: bool,
        separate: bool,
        scripts: usize,
        harm: Harm,
    },
}
use Op::*;

impl Op {
    fn text(&self, at: u32) -> String {
        match self {
            Update => "the game is updated".into(),
            Verify => "the game's file is restored".into(),
            Deploy => "a bundle is deployed to the custom path".into(),
            Drop(f) => format!("{f} is deleted"),
            Move(a, b) => format!("{a} is moved to {b}"),
            Compile { custom, separate, scripts, harm } => {
                let mut o = format!("compile scripts {scripts}");
                if *custom {
                    o += " at the custom path";
                }
                if *separate {
                    o += " to a separate file";
                }
                match harm {
                    Harm::No => {}
                    Harm::Kill => o += &format!(", killed before change {at}"),
                    Harm::Torn => o += &format!(", killed within change {at}"),
                    Harm::Full => o += &format!(", no space for change {at}"),
                }
                o
            }
        }
    }
}

/// what one path holds, as the model sees it: which version of the game can be had back
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Base {
    Absent,
    Lost,
    Game(usize),
}

#[derive(Clone, Debug)]
struct St {
    files: Tree,
    game: usize,
    base: [Base; 2],
    clock: i64,
    /// how often it may still be interrupted
    harms: u32,
    /// how it came about
    path: Vec<(usize, u32)>,
    text: Vec<String>,
}

type Key = (FilesKey, usize, [Base; 2], u32);

fn is_stamp(n: &str) -> bool {
    n.ends_with(".ts")
}

fn seconds(node: &Node) -> Option<u128> {
    Some(u128::from_le_bytes(node.data.get(..16)?.try_into().ok()?))
}

impl St {
    /// times matter only as far as they are compared
    fn key(&self) -> Key {
        (files_key(&self.files), self.game, self.base, self.harms)
    }
}

pub type FilesKey = BTreeMap<String, (Vec<u8>, Vec<std::cmp::Ordering>)>;

/// the files, with times as far as they are compared
pub fn files_key(files: &Tree) -> FilesKey {
    key_of(files, |_, _| true)
}

/// the same, for a comparison of only the bundle of a path with the time that is kept of it
pub fn strict_key(files: &Tree) -> FilesKey {
    key_of(files, |bundle, stamp| stamp.strip_suffix(".ts") == Some(bundle))
}

fn key_of(files: &Tree, compared: impl Fn(&str, &str) -> bool) -> FilesKey {
    let stamps: Vec<(&String, u128)> = files
        .iter()
        .filter(|(n, _)| is_stamp(n))
        .filter_map(|(n, f)| seconds(f).map(|s| (n, s)))
        .collect();
    files
        .iter()
        .map(|(n, f)| {
            let data = if is_stamp(n) { vec![f.data.len() as u8] } else { f.data.to_vec() };
            let order = if is_stamp(n) {
                vec![]
            } else {
                stamps
                    .iter()
                    .filter(|(s, _)| compared(n, s))
                    .map(|(_, s)| (f.time as u128 * 1_000_000_000).cmp(s))
                    .collect()
            };
            (n.clone(), (data, order))
        })
        .collect()
}

fn version(node: Option<&Node>) -> Option<usize> {
    node.and_then(|n| (0..GAMES).find(|g| *known().games[*g] == *n.data))
}

/// the version and the scripts of one of our own outputs
fn output(node: Option<&Node>) -> Option<(usize, usize)> {
    let n = node?;
    (0..GAMES)
        .flat_map(|g| (0..GOOD).map(move |s| (g, s)))
        .find(|(g, s)| known().built[*g][*s] == *n.data)
}

struct Place {
    cache: &'static str,
    backup: &'static str,
    out: &'static str,
}

const PLACES: [Place; 2] = [
    Place {
        cache: CACHE,
        backup: BACKUP,
        out: OUT,
    },
    Place {
        cache: CUSTOM,
        backup: CUSTOM_BACKUP,
        out: CUSTOM_OUT,
    },
];

/// what is left to build on when files have been deleted or moved by hand
fn remaining(files: &Tree, p: &Place) -> Base {
    if p.cache == CUSTOM && !files.contains_key(CUSTOM) {
        // it is set up again from the default path
        return Base::Absent;
    }
    match (version(files.get(p.cache)), files.contains_key(p.cache), version(files.get(p.backup))) {
        (Some(g), _, _) | (None, _, Some(g)) => Base::Game(g),
        (None, true, None) => Base::Lost,
        (None, false, None) => Base::Absent,
    }
}

/// one step; None where it cannot be taken
fn step(st: &St, op: &Op, ch: &mut Chooser) -> Result<Option<(St, u32)>, Fail> {
    let mut to = st.clone();
    let mut at = 0;
    match *op {
        Update | Verify => {
            if *op == Update {
                to.game = (to.game + 1) % GAMES;
            } else if version(st.files.get(CACHE)) == Some(st.game) {
                return Ok(None);
            }
            to.clock += 1;
            let data = known().games[to.game].clone();
            to.files.insert(CACHE.into(), Node { data, time: to.clock });
            to.base[0] = Base::Game(to.game);
        }
        Deploy => {
            // the last of the versions stands for a bundle made by another tool
            to.clock += 1;
            let data = known().games[GAMES - 1].clone();
            to.files.insert(CUSTOM.into(), Node { data, time: to.clock });
            to.base[1] = Base::Game(GAMES - 1);
        }
        Drop(f) => {
            if to.files.remove(f).is_none() {
                return Ok(None);
            }
            for (i, p) in PLACES.iter().enumerate() {
                if f == p.cache || f == p.backup {
                    to.base[i] = remaining(&to.files, p);
                }
            }
        }
        Move(a, b) => {
            let Some(n) = to.files.remove(a) else { return Ok(None) };
            to.files.insert(b.into(), n);
            for (i, p) in PLACES.iter().enumerate() {
                if [p.cache, p.backup].contains(&a) || [p.cache, p.backup].contains(&b) {
                    to.base[i] = remaining(&to.files, p);
                }
            }
        }
        Compile { custom, separate, scripts, harm } => {
            let p = &PLACES[usize::from(custom)];
            if harm != Harm::No {
                if st.harms == 0 {
                    return Ok(None);
                }
                to.harms -= 1;
            }
            let run = |fault| {
                put(&st.files, scripts);
                let mut set = world::settings();
                let r6 = world::r6();
                if custom {
                    set.custom_cache_file = Some(r6.join(CUSTOM).into());
                }
                if separate {
                    set.output_cache_file = Some(r6.join(p.out).into());
                }
                let (r, report) = shim::with(fault, st.clock, || guarded(|| scc_lib::compile(&set)));
                (r, report, get())
            };
            let fault = match harm {
                Harm::No => Fault::None,
                _ => {
                    let calls = run(Fault::None).1.calls;
                    if calls == 0 {
                        return Ok(None);
                    }
                    at = ch.pick(calls as usize) as u32;
                    match harm {
                        Harm::Kill => Fault::Kill(at),
                        Harm::Torn => Fault::Torn(at),
                        _ => Fault::Full(at),
                    }
                }
            };
            let (r, report, files) = run(fault);
            to.clock = report.clock;
            to.files = files;
            let told = match &r {
                Err(p) => format!("it panicked: {p}"),
                Ok(r) => match &**r {
                    SccResult::Success(_) => "it succeeded".into(),
                    SccResult::Error(e) => format!("it failed: {}", e.to_string().lines().next().unwrap_or_default()),
                },
            };
            let bad = |what: &str| -> Result<(), Fail> {
                let mut text = st.text.join("; ");
                if !text.is_empty() {
                    text += "; ";
                }
                text += &op.text(at);
                fail(
                    text.clone(),
                    format!("{what} after: {text}\n  {told}\n  before:\n{}  after:\n{}", show(&st.files), show(&to.files)),
                )
            };
            let done = match &r {
                Err(_) => {
                    bad("a compilation ended in a panic")?;
                    false
                }
                Ok(r) => matches!(**r, SccResult::Success(_)),
            };
            // what there is to build on
            let i = usize::from(custom);
            let mut base = st.base[i];
            if custom {
                if base == Base::Absent {
                    base = st.base[0];
                    if base == Base::Lost {
                        // an earlier backup of this path steps in
                        base = version(st.files.get(p.backup)).map_or(base, Base::Game);
                    }
                    if base == Base::Absent {
                        base = Base::Lost;
                    }
                } else if !st.files.contains_key(p.backup) && version(st.files.get(p.cache)).is_none() {
                    // the backup of the default path steps in
                    base = version(st.files.get(BACKUP)).map_or(base, Base::Game);
                }
                // nothing may happen to the default path
                if to.files.get(CACHE) != st.files.get(CACHE) || to.files.get(BACKUP) != st.files.get(BACKUP) {
                    bad("the files of the default path changed")?;
                }
            }
            let before = st.files.get(p.cache).map(|n| &n.data);
            let cache = to.files.get(p.cache);
            let backup = to.files.get(p.backup);
            // at no time is there half a bundle
            if cache.is_some() && version(cache).is_none() && output(cache).is_none() {
                bad("the cache is not a complete bundle")?;
            }
            let result = if separate { p.out } else { p.cache };
            if separate && to.files.contains_key(p.out) && output(to.files.get(p.out)).is_none() {
                bad("the output is not a complete bundle")?;
            }
            to.base[i] = base;
            match base {
                Base::Game(g) => {
                    if version(cache) != Some(g) && version(backup) != Some(g) {
                        // it may have come to an end before anything was set up
                        if done || matches!(st.base[i], Base::Game(_)) {
                            bad("the game's own bundle is gone")?;
                        }
                        to.base[i] = st.base[i];
                    }
                    if done {
                        if scripts >= GOOD {
                            bad("scripts that are wrong were accepted")?;
                        }
                        if output(to.files.get(result)) != Some((g, scripts)) {
                            bad(&format!("the result is not game {g} with scripts {scripts}"))?;
                        }
                        if separate && (version(cache) != Some(g) || backup.is_some()) {
                            bad("the game's own bundle is not back in its place")?;
                        }
                        if !separate && version(backup) != Some(g) {
                            bad("there is no backup of the game's own bundle")?;
                        }
                    } else if harm == Harm::No {
                        if scripts < GOOD {
                            bad("a compilation that should succeed failed")?;
                        }
                        if !separate && before.is_some() && cache.map(|n| &n.data) != before {
                            bad("a compilation that failed changed the bundle")?;
                        }
                        if separate && to.files.get(p.out) != st.files.get(p.out) {
                            bad("a compilation that failed changed its output")?;
                        }
                    }
                }
                Base::Lost | Base::Absent => {
                    if done {
                        bad("scripts were compiled into a bundle that holds scripts")?;
                    }
                    if before.is_some() && cache.map(|n| &n.data) != before {
                        bad("a compilation that failed changed the bundle")?;
                    }
                    if cache.is_none() {
                        to.base[i] = Base::Absent;
                    }
                }
            }
        }
    }
    to.text.push(op.text(at));
    Ok(Some((to, at)))
}

fn search(ctx: &Ctx, name: &str, ops: &[Op], from: Vec<St>, most: usize) {
    known();
    let mut seen: HashMap<Key, ()> = from.iter().map(|s| (s.key(), ())).collect();
    let mut front = from;
    for level in 0..most {
        if front.is_empty() || (ctx.failing() && std::env::var_os("MC_ALL").is_none()) {
            break;
        }
        let next: Mutex<HashMap<Key, St>> = Mutex::default();
        let visit = |ch: &mut Chooser, cx: &mut Cx| -> Result<(), Fail> {
            let st = ch.of(&front);
            let n = ch.pick(ops.len());
            cx.case(|| format!("{}; {}", st.text.join("; "), ops[n].text(0)));
            let Some((mut to, at)) = step(st, &ops[n], ch)? else { return Ok(()) };
            cx.step();
            cx.trace();
            cx.sample(|| to.text.join("; "));
            let key = to.key();
            if seen.contains_key(&key) {
                return Ok(());
            }
            to.path.push((n, at));
            let mut next = next.lock().unwrap();
            match next.get_mut(&key) {
                Some(old) if old.path <= to.path => {}
                Some(old) => *old = to,
                None => {
                    cx.state();
                    next.insert(key, to);
                }
            }
            Ok(())
        };
        let section = format!("{name}, step {}", level + 1);
        match ctx.replaying() {
            None => ctx.explore(&section, visit),
            Some(s) if s == section => return ctx.explore(&section, visit),
            Some(s) if s.starts_with(name) => ctx.each(|ch, cx| drop(visit(ch, cx))),
            Some(_) => return,
        }
        let next = next.into_inner().unwrap();
        front = vec![];
        for (k, s) in next {
            seen.insert(k, ());
            front.push(s);
        }
        front.sort_by(|a, b| a.path.cmp(&b.path));
    }
    if front.is_empty() {
        println!("[{}] {name}: {} states, all histories of any length", ctx.id, seen.len());
    } else {
        println!("[{}] {name}: {} states, histories of up to {most} steps", ctx.id, seen.len());
    }
}

fn start(harms: u32) -> St {
    let data = known().games[0].clone();
    St {
        files: Tree::from([(CACHE.to_owned(), Node { data, time: 1 })]),
        game: 0,
        base: [Base::Game(0), Base::Absent],
        clock: 1,
        harms,
        path: vec![],
        text: vec![],
    }
}

fn compiles(custom: bool, separate: &[bool], scripts: &[usize], harms: &[Harm]) -> Vec<Op> {
    let mut all = vec![];
    for separate in separate {
        for scripts in scripts {
            for harm in harms {
                all.push(Compile {
                    custom,
                    separate: *separate,
                    scripts: *scripts,
                    harm: *harm,
                });
            }
        }
    }
    all
}

fn fresh(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (g, s) = (ch.pick(GAMES), ch.pick(GOOD));
    cx.state();
    cx.step();
    cx.trace();
    let key = format!("game {g} with scripts {s}");
    cx.case(|| key.clone());
    match world::roots(&known().built[g][s]) {
        Ok(r) if r == world::expected(g, s) => Ok(()),
        Ok(r) => fail(key, format!("a fresh installation yields {r:?}\nexpected {:?}", world::expected(g, s))),
        Err(e) => fail(key, format!("a fresh installation yields no bundle: {e}")),
    }
}

pub fn run(ctx: &Ctx) {
    let no = [Harm::No];
    ctx.explore("fresh installations", fresh);
    let mut ops = vec![
        Update,
        Verify,
        Drop(STAMP),
        Drop(BACKUP),
        Drop(CACHE),
        Move(BACKUP, CACHE),
        Move(STAMP, OLD_STAMP),
    ];
    ops.extend(compiles(false, &[false, true], &[0, 1, 2, 3, 4], &no));
    search(ctx, "one path", &ops, vec![start(0)], 40);

    let mut ops = vec![Update, Deploy, Drop(CUSTOM_STAMP), Drop(CUSTOM_BACKUP), Drop(CUSTOM), Drop(BACKUP)];
    ops.extend(compiles(false, &[false], &[1, 3], &no));
    ops.extend(compiles(true, &[false, true], &[0, 2, 3], &no));
    search(ctx, "two paths", &ops, vec![start(0)], if ctx.thorough() { 40 } else { 8 });
}

pub fn run_harm(ctx: &Ctx) {
    let no = [Harm::No];
    let all = [Harm::Kill, Harm::Torn, Harm::Full];
    let deep = ctx.thorough();
    let mut ops = vec![Update, Drop(STAMP)];
    ops.extend(compiles(false, &[false, true], &[1, 3], &no));
    ops.extend(compiles(false, &[false, true], &[1, 2, 3], &all));
    search(ctx, "one path, interrupted once", &ops, vec![start(1)], 40);
    search(ctx, "one path, interrupted", &ops, vec![start(4)], if deep { 4 } else { 2 });

    let mut ops = vec![Update, Deploy];
    ops.extend(compiles(false, &[false], &[1], &no));
    ops.extend(compiles(true, &[false, true], &[1], &no));
    ops.extend(compiles(true, &[false, true], &[2], &all));
    search(ctx, "two paths, interrupted once", &ops, vec![start(1)], if deep { 40 } else { 8 });
    search(ctx, "two paths, interrupted", &ops, vec![start(4)], if deep { 4 } else { 3 });
}
