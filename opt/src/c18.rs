//! C18 the command line of scc, C19 arguments broken up by quoting
use std::path::PathBuf;

use crate::opts::{fix_args, Opts};
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};

#[derive(Clone, Debug, PartialEq)]
struct Want {
    scripts_dir: String,
    cache_file: Option<String>,
    cache_dir: Option<String>,
    output: Option<String>,
    paths: Option<String>,
    threads: u8,
    warnings: Vec<String>,
    optimize: bool,
    no_testonly: bool,
    no_breakpoint: bool,
    no_exec: bool,
    no_debug: bool,
    profile: bool,
}

impl Want {
    fn new(dir: &str) -> Self {
        Want {
            scripts_dir: dir.to_owned(),
            cache_file: None,
            cache_dir: None,
            output: None,
            paths: None,
            threads: 1,
            warnings: vec![],
            optimize: false,
            no_testonly: false,
            no_breakpoint: false,
            no_exec: false,
            no_debug: false,
            profile: true,
        }
    }
    fn of(o: &Opts) -> Self {
        let s = |p: &PathBuf| p.to_string_lossy().into_owned();
        Want {
            scripts_dir: s(&o.scripts_dir),
            cache_file: o.cache_file.as_ref().map(s),
            cache_dir: o.cache_dir.as_ref().map(s),
            output: o.output_cache_file.as_ref().map(s),
            paths: o.script_paths_file.as_ref().map(s),
            threads: o.threads,
            warnings: o.warnings.clone(),
            optimize: o.optimize,
            no_testonly: o.no_testonly,
            no_breakpoint: o.no_breakpoint,
            no_exec: o.no_exec,
            no_debug: o.no_debug,
            profile: o.profile,
        }
    }
}

const KINDS: usize = 12;

/// one option: its arguments, and what it sets
fn option(kind: usize, ch: &mut Chooser, paths: &[&str], numbers: &[&str], words: &[&str], args: &mut Vec<String>, w: &mut Want) {
    let mut path = |args: &mut Vec<String>, tag: &str| {
        if !tag.is_empty() {
            args.push(tag.to_owned());
        }
        let p = (*ch.of(paths)).to_owned();
        args.push(p.clone());
        Some(p)
    };
    match kind {
        0 => w.cache_file = path(args, ""),
        1 => w.cache_dir = path(args, "-customCacheDir"),
        2 => w.output = path(args, "-outputCacheFile"),
        3 => w.paths = path(args, "-compilePathsFile"),
        4 => {
            let n = *ch.of(numbers);
            args.extend(["-threads".to_owned(), n.to_owned()]);
            w.threads = n.parse().expect("harness: threads");
        }
        5 => {
            let n = *ch.of(words);
            args.push(format!("-W{n}"));
            w.warnings.push(n.to_owned());
        }
        6 => {
            args.push("-optimize".to_owned());
            w.optimize = true;
        }
        7 => {
            args.push("-no-testonly".to_owned());
            w.no_testonly = true;
        }
        8 => {
            args.push("-no-breakpoint".to_owned());
            w.no_breakpoint = true;
        }
        9 => {
            args.push("-no-exec".to_owned());
            w.no_exec = true;
        }
        10 => {
            args.push("-no-debug".to_owned());
            w.no_debug = true;
        }
        _ => {
            w.profile = ch.flag();
            args.push(format!("-profile={}", if w.profile { "on" } else { "off" }));
        }
    }
}

fn load(args: &[String]) -> Result<Result<Want, String>, Fail> {
    let v: Vec<&str> = args.iter().map(String::as_str).collect();
    match guarded(|| Opts::load(&v).map(|o| Want::of(&o)).map_err(|e| format!("{e:?}"))) {
        Ok(r) => Ok(r),
        Err(p) => fail(format!("{args:?}"), format!("{args:?}: {p}")),
    }
}

fn judge(args: &[String], want: &Want, cx: &mut Cx) -> Result<(), Fail> {
    cx.step();
    cx.state();
    cx.trace();
    cx.case(|| format!("{args:?}"));
    cx.sample(|| format!("{args:?}"));
    match load(args)? {
        Ok(got) if got == *want => Ok(()),
        other => fail(format!("{args:?}"), format!("{args:?} is read as {other:?}, expected {want:?}")),
    }
}

fn starts(ch: &mut Chooser, dirs: &[&str]) -> (Vec<String>, Want) {
    let d = *ch.of(dirs);
    (vec!["-compile".to_owned(), d.to_owned()], Want::new(d))
}

/// n options in every order
fn orders(ch: &mut Chooser, n: usize, kinds: &[usize], vals: (&[&str], &[&str], &[&str]), cx: &mut Cx) -> Result<(), Fail> {
    let (mut args, mut w) = starts(ch, &["r6/scripts"]);
    let mut left: Vec<usize> = kinds.to_vec();
    for _ in 0..n {
        let i = ch.pick(left.len());
        let k = left[i];
        if k != 5 {
            left.remove(i);
        }
        option(k, ch, vals.0, vals.1, vals.2, &mut args, &mut w);
    }
    judge(&args, &w, cx)
}

/// all options at once, started at any place, forwards or backwards
fn rotations(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (mut args, mut w) = starts(ch, &["r6/scripts", "/a b/c"]);
    let from = ch.pick(KINDS);
    let step = *ch.of(&[1usize, 5, 7, 11]);
    let skip = ch.pick(KINDS + 1);
    for i in 0..KINDS {
        let k = (from + i * step) % KINDS;
        if k != skip {
            option(k, ch, &["some/path"], &["4"], &["none"], &mut args, &mut w);
        }
    }
    judge(&args, &w, cx)
}

/// values of every kind of option
fn values(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let paths = ["a", "a b", "C:\\x\\y.redscripts", "C:\\x y\\", "/é/ß", "a=b", "a-b", ".", "..", "W", "compile", "on", "4", "a\"b", " -x"];
    let numbers: Vec<String> = (0..=255).map(|n| n.to_string()).collect();
    let numbers: Vec<&str> = numbers.iter().map(String::as_str).chain(["007", "+3"]).collect();
    let words = ["", "none", "all", "-", "W", "-W", "-Wx", "-threads", "=", "error=x", "é", "none all"];
    let (mut args, mut w) = starts(ch, &paths);
    let k = ch.pick(KINDS);
    option(k, ch, &paths, &numbers, &words, &mut args, &mut w);
    judge(&args, &w, cx)
}

/// one option that is none, or not complete, among others
fn refused(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (mut args, mut w) = starts(ch, &["r6/scripts"]);
    let bad: &[&[&str]] = &[
        &["-threads"],
        &["-threads", "x"],
        &["-threads", "256"],
        &["-threads", "1.5"],
        &["-threads", ""],
        &["-profile=maybe"],
        &["-profile=On"],
        &["-profile="],
        &["-profile"],
        &["-profile=on=off"],
        &["-profile=off=on"],
        &["-profileon"],
        &["-threads", "-1"],
        &["-threads=4"],
        &["-unknown"],
        &["-Optimize"],
        &["-optimizee"],
        &["--optimize"],
        &["-no-testonl"],
        &["-outputCacheFile"],
        &["-outputcachefile", "x"],
        &["-customCacheDir"],
        &["-compilePathsFile"],
        &["-compilepathsfile", "x"],
        &["-"],
        &["one", "two"],
    ];
    let bad = ch.of(bad);
    let at = ch.pick(3);
    let mut kinds: Vec<usize> = (0..KINDS).filter(|k| *k != 4 && *k != 11 && *k != 0).collect();
    for i in 0..3 {
        if i == at {
            args.extend(bad.iter().map(|s| (*s).to_owned()));
        }
        if i < 2 {
            let j = ch.pick(kinds.len());
            let k = kinds.remove(j);
            // an incomplete option would take the path of an option without a tag
            option(k, ch, &["p"], &["4"], &["none"], &mut args, &mut w);
        }
    }
    // the same option twice is the only thing the other kinds could make of it
    cx.step();
    cx.state();
    cx.trace();
    cx.case(|| format!("{args:?}"));
    match load(&args)? {
        Err(_) => Ok(()),
        Ok(got) => fail(format!("{args:?}"), format!("{args:?} is accepted as {got:?}")),
    }
}

/// no scripts directory
fn missing(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let mut w = Want::new("");
    let mut args: Vec<String> = match ch.pick(4) {
        0 => vec![],
        1 => vec!["-compile".into()],
        2 => vec!["-Compile".into(), "x".into()],
        _ => vec!["compile".into(), "x".into()],
    };
    for _ in 0..ch.pick(3) {
        // a path after a bare -compile would be its value
        let k = 1 + ch.pick(KINDS - 1);
        option(k, ch, &["p"], &["4"], &["none"], &mut args, &mut w);
    }
    cx.step();
    cx.state();
    cx.trace();
    cx.case(|| format!("{args:?}"));
    match load(&args)? {
        Err(_) => Ok(()),
        Ok(got) => fail(format!("{args:?}"), format!("{args:?} is accepted as {got:?}")),
    }
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let k = usize::from(th);
    let all: Vec<usize> = (0..KINDS).collect();
    let one: (&[&str], &[&str], &[&str]) = (&["p q"], &["4"], &["none"]);
    let two: (&[&str], &[&str], &[&str]) = (&["p", "-"], &["0", "255"], &["none", "all"]);
    let _ = two;
    for n in 0..6 + k {
        ctx.explore(&format!("{n} options in any order"), |ch, cx| orders(ch, n, &all, one, cx));
    }
    // options that take a value, in any order
    let valued = [0, 1, 2, 3, 4, 11];
    ctx.explore("all options with values", |ch, cx| orders(ch, 6, &valued, one, cx));
    let rest: Vec<usize> = (5..KINDS).collect();
    ctx.explore("all switches", |ch, cx| orders(ch, 5 + k, &rest, one, cx));
    ctx.explore("everything", rotations);
    ctx.explore("values", values);
    ctx.explore("refused", refused);
    ctx.explore("no scripts directory", missing);
}

// ------------------------------------------------------------------ C19

/// the rules by which a Windows program splits its command line
fn split(cmd: &str) -> Vec<String> {
    let c: Vec<char> = cmd.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    loop {
        while i < c.len() && (c[i] == ' ' || c[i] == '\t') {
            i += 1;
        }
        if i == c.len() {
            return out;
        }
        let mut arg = String::new();
        let mut quoted = false;
        while i < c.len() {
            match c[i] {
                ' ' | '\t' if !quoted => break,
                '\\' => {
                    let n = c[i..].iter().take_while(|x| **x == '\\').count();
                    i += n;
                    if c.get(i) == Some(&'"') {
                        arg.extend(std::iter::repeat('\\').take(n / 2));
                        if n % 2 == 1 {
                            arg.push('"');
                            i += 1;
                        }
                    } else {
                        arg.extend(std::iter::repeat('\\').take(n));
                    }
                }
                '"' => {
                    i += 1;
                    if quoted && c.get(i) == Some(&'"') {
                        arg.push('"');
                        i += 1;
                    } else {
                        quoted = !quoted;
                    }
                }
                x => {
                    arg.push(x);
                    i += 1;
                }
            }
        }
        out.push(arg);
    }
}

fn repaired(ch: &mut Chooser, n: usize, first: &[&str], rest: &[&str], cx: &mut Cx) -> Result<(), Fail> {
    let mut args = vec![];
    let mut cmd = String::new();
    for i in 0..n {
        let a = *ch.of(if i == 0 { first } else { rest });
        let path = a.contains(['\\', ' ', '/']);
        if i > 0 {
            cmd.push(' ');
        }
        if path {
            cmd.push_str(&format!("\"{a}\""));
        } else {
            cmd.push_str(a);
        }
        args.push(a.to_owned());
    }
    cx.step();
    cx.state();
    cx.trace();
    cx.case(|| cmd.clone());
    cx.sample(|| cmd.clone());
    let raw = split(&cmd);
    let got = match guarded(|| fix_args(raw.clone())) {
        Ok(g) => g,
        Err(p) => return fail(cmd.clone(), format!("{cmd}: {p}")),
    };
    if got != args {
        return fail(cmd.clone(), format!("{cmd} arrives as {raw:?} and becomes {got:?}"));
    }
    Ok(())
}

pub fn run19(ctx: &Ctx) {
    let k = usize::from(ctx.thorough());
    let first = ["x", "C:\\a", "C:\\a b", "C:\\a\\", "C:\\a b\\", "C:\\a b\\c d\\"];
    for n in 1..6 + k {
        ctx.explore(&format!("{n} arguments"), |ch, cx| repaired(ch, n, &first, &first, cx));
    }
    // doubled spaces, spaces at an end and doubled backslashes at an end are lost before the program starts
    let odd = ["C:\\", "\\", "-W", "-a", "\\\\srv\\x\\", "a\\ b", "é ß\\", "a b c d\\", "C:/x/", "C:/x y/"];
    for n in 1..5 + k {
        ctx.explore(&format!("{n} odd arguments"), |ch, cx| repaired(ch, n, &odd, &odd, cx));
    }
    ctx.explore("a real command line", real);
    for n in 1..4 {
        ctx.explore(&format!("{n} strings of any kind"), |ch, cx| any(ch, n, [5, 4, 2 + k][n - 1], cx));
    }
}

/// the command line of the game: the scripts directory and the options, each of them in one of some places
fn real(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let dir = "C:\\Program Files (x86)\\Steam\\Cyberpunk 2077\\r6";
    let slash = |ch: &mut Chooser, s: &str| if ch.flag() { format!("{s}\\") } else { s.to_owned() };
    let mut w = Want::new(&slash(ch, &format!("{dir}\\scripts")));
    let mut args = vec!["-compile".to_owned(), w.scripts_dir.clone()];
    let mut left = vec![0, 1, 2, 3, 4, 5];
    for _ in 0..4 {
        let k = left.remove(ch.pick(left.len()));
        match k {
            0 => {
                w.cache_file = Some(format!("{dir}\\cache\\final.redscripts"));
                args.extend(w.cache_file.clone());
            }
            1 => {
                w.cache_dir = Some(slash(ch, &format!("{dir}\\cache\\modded")));
                args.push("-customCacheDir".into());
                args.extend(w.cache_dir.clone());
            }
            2 => {
                w.output = Some(slash(ch, "D:\\out"));
                args.push("-outputCacheFile".into());
                args.extend(w.output.clone());
            }
            3 => {
                w.paths = Some(slash(ch, &format!("{dir}\\paths")));
                args.push("-compilePathsFile".into());
                args.extend(w.paths.clone());
            }
            k => option(k, ch, &[], &["4"], &["none"], &mut args, &mut w),
        }
    }
    let cmd: Vec<String> = args.iter().map(|a| if a.contains(' ') { format!("\"{a}\"") } else { a.clone() }).collect();
    let cmd = cmd.join(" ");
    let fixed = fix_args(split(&cmd));
    if fixed != args {
        return fail(cmd.clone(), format!("{cmd} becomes {fixed:?}"));
    }
    judge(&fixed, &w, cx)
}

/// whatever the arguments are, nothing panics and no empty argument is left
fn any(ch: &mut Chooser, n: usize, len: usize, cx: &mut Cx) -> Result<(), Fail> {
    let mut args = vec![];
    for _ in 0..n {
        let mut s = String::new();
        for _ in 0..ch.pick(len + 1) {
            s.push(*ch.of(&['a', ' ', '"', '\\', 'é']));
        }
        args.push(s);
    }
    cx.step();
    cx.state();
    cx.trace();
    cx.case(|| format!("{args:?}"));
    let got = match guarded(|| fix_args(args.clone())) {
        Ok(g) => g,
        Err(p) => return fail(format!("{args:?}"), format!("{args:?}: {p}")),
    };
    if got.iter().any(String::is_empty) {
        return fail(format!("{args:?}"), format!("{args:?} becomes {got:?}"));
    }
    let kept: Vec<String> = args.iter().filter(|s| !s.is_empty()).cloned().collect();
    if !args.iter().any(|a| a.contains('"')) && got != kept {
        return fail(format!("{args:?}"), format!("{args:?} has no quotes and becomes {got:?}"));
    }
    Ok(())
}
