//! C16 the file index
use std::path::Path;

use redscript::bundle::PoolIndex;
use redscript_decompiler::files::FileIndex;

use crate::c15::Pl;
use crate::model::*;
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};

struct World {
    pl: Pl,
    files: Vec<(u32, &'static str)>,
    /// index, name, first line, sources: (file, line) of the entry or its functions
    items: Vec<Item>,
}

struct Item {
    id: u32,
    orphan: bool,
    lines: Vec<(u32, u32)>,
}

fn fun(src: Option<(u32, u32)>) -> MFun {
    let mut f = MFun::empty();
    f.source = src;
    f.flags = if src.is_none() { ff::NATIVE } else { ff::BODY };
    f
}

fn build(ch: &mut Chooser, n: usize, methods: usize, lines: &[u32]) -> World {
    let mut pl = Pl::new();
    let paths = ["a.script", "core/base/b.script", "orphan.swift"];
    // the source files may stand before or behind what they contain
    let first = ch.flag();
    let ids: Vec<u32> = if first {
        (0..paths.len()).map(|i| source(&mut pl, i, paths[i])).collect()
    } else {
        vec![]
    };
    let base = 1 + if first { 3 } else { 0 };
    // where the files will be when they come last is not known before: reserve them
    let ids: Vec<u32> = if first { ids } else { (0..3).map(|i| 1000 + i).collect() };
    let mut items = vec![];
    let pick_src = |ch: &mut Chooser, ids: &[u32]| -> Option<(u32, u32)> {
        let i = ch.pick(1 + 2 * lines.len());
        (i > 0).then(|| (ids[(i - 1) % 2], lines[(i - 1) / 2]))
    };
    let _ = base;
    for i in 0..n {
        match ch.pick(3) {
            0 => {
                let e = pl.add(&format!("E{i}"), 0, MVal::Enum { flags: 0, size: 4, members: vec![], unk1: false });
                items.push(Item { id: e, orphan: true, lines: vec![] });
            }
            1 => {
                let s = pick_src(ch, &ids);
                let f = pl.add(&format!("f{i}"), 0, MVal::Function(fun(s)));
                items.push(Item { id: f, orphan: s.is_none(), lines: s.into_iter().collect() });
            }
            _ => {
                let c = pl.add("tmp", 0, MVal::EnumValue(0));
                let mut cl = MClass { vis: 0, flags: 0, base: 0, functions: vec![], fields: vec![], overrides: vec![] };
                let mut ls = vec![];
                let mut native = true;
                for m in 0..ch.pick(methods + 1) {
                    let s = pick_src(ch, &ids);
                    native &= s.is_none();
                    ls.extend(s);
                    cl.functions.push(pl.add(&format!("m{m}"), c, MVal::Function(fun(s))));
                }
                pl.put(c, &format!("C{i}"), 0, MVal::Class(cl));
                items.push(Item { id: c, orphan: native, lines: ls });
            }
        }
    }
    if !first {
        // everything between is a placeholder
        while u32::from(pl.pool.reserve::<redscript::definition::Definition>()) < 999 {}
        for (i, p) in paths.iter().enumerate() {
            let id = source(&mut pl, i, p);
            assert_eq!(id, ids[i], "harness: place of the source file");
        }
    }
    World { pl, files: ids.iter().copied().zip(paths).collect(), items }
}

fn source(pl: &mut Pl, i: usize, path: &str) -> u32 {
    pl.add("", 0, MVal::Source { id: i as u32, hash: 0, path: path.to_owned() })
}

fn index(ch: &mut Chooser, n: usize, methods: usize, lines: &[u32], cx: &mut Cx) -> Result<(), Fail> {
    let w = build(ch, n, methods, lines);
    let pool = &w.pl.pool;
    let describe = || w.items.iter().map(|i| format!("{} orphan={} {:?}", i.id, i.orphan, i.lines)).collect::<Vec<_>>().join("; ");
    let read = || -> Vec<(String, Vec<u32>)> {
        let idx = FileIndex::from_pool(pool);
        let v = idx
            .iter()
            .map(|e| {
                let ids = e
                    .definitions
                    .iter()
                    .map(|d| {
                        pool.definitions()
                            .find(|(_, x)| std::ptr::eq(*x, *d))
                            .map_or(u32::MAX, |(i, _)| i.into())
                    })
                    .collect();
                (e.path.to_string_lossy().into_owned(), ids)
            })
            .collect();
        v
    };
    let got = match guarded(read) {
        Ok(g) => g,
        Err(p) => return fail("panic", format!("{}: {p}", describe())),
    };
    cx.step();
    cx.state();
    cx.trace();
    cx.sample(|| format!("{} -> {got:?}", describe()));
    let bad = |why: &str| fail(describe(), format!("{why}: {} is indexed as {got:?}", describe()));
    // what belongs to no file comes first, in the order of the pool
    let Some((first, rest)) = got.split_first() else { return bad("no entries") };
    let orphans: Vec<u32> = w.items.iter().filter(|i| i.orphan).map(|i| i.id).collect();
    if Path::new(&first.0) != Path::new("orphans.script") || first.1 != orphans {
        return bad("the orphans are not listed as such");
    }
    for (id, path) in &w.files {
        let entries: Vec<_> = rest.iter().filter(|(p, _)| p == path).collect();
        let mut want: Vec<u32> = w.items.iter().filter(|i| i.lines.iter().any(|(f, _)| f == id)).map(|i| i.id).collect();
        if want.is_empty() && entries.is_empty() {
            continue;
        }
        let [entry] = entries[..] else { return bad("a file does not have one entry") };
        let mut have = entry.1.clone();
        have.sort_unstable();
        want.sort_unstable();
        if have != want {
            return bad("a file does not list its definitions once each");
        }
        // definitions that are in this file only stand in the order of their first lines
        let lines: Vec<u32> = entry
            .1
            .iter()
            .filter_map(|i| w.items.iter().find(|x| x.id == *i))
            .filter(|x| x.lines.iter().all(|(f, _)| f == id))
            .map(|x| x.lines.iter().map(|(_, l)| *l).min().unwrap_or(0))
            .collect();
        if lines.windows(2).any(|p| p[0] > p[1]) {
            return bad("the definitions of a file are not in the order of their first lines");
        }
    }
    if rest.iter().any(|(p, _)| !w.files.iter().any(|(_, q)| p == q)) {
        return bad("an entry of no file");
    }
    // indexing again lists the same (the order of definitions on one line is left open)
    let mut a = rest.to_vec();
    let mut b = read();
    b.remove(0);
    for (_, v) in a.iter_mut().chain(&mut b) {
        v.sort_unstable();
    }
    a.sort();
    b.sort();
    if a != b {
        return bad(&format!("indexed again it is {b:?}"));
    }
    Ok(())
}

/// sources that name no source file
fn odd(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let mut pl = Pl::new();
    let s = source(&mut pl, 0, "x.script");
    let e = pl.add("E", 0, MVal::Enum { flags: 0, size: 4, members: vec![], unk1: false });
    let bad = *ch.of(&[0u32, e, 77, u32::MAX]);
    let f = pl.add("f", 0, MVal::Function(fun(Some((bad, 1)))));
    let g = pl.add("g", if ch.flag() { e } else { 500 }, MVal::Function(fun(Some((s, 1)))));
    let h = pl.add("h", 0, MVal::Function(fun(Some((s, 2)))));
    let _ = (f, g);
    let names = |i: PoolIndex<redscript::bundle::CName>| pl.pool.names.get(i).map(|s| s.to_string()).unwrap_or_default();
    let got = guarded(|| {
        let idx = FileIndex::from_pool(&pl.pool);
        let v: Vec<(String, Vec<String>)> =
            idx.iter().map(|e| (e.path.to_string_lossy().into_owned(), e.definitions.iter().map(|d| names(d.name)).collect())).collect();
        v
    });
    cx.step();
    cx.state();
    cx.trace();
    let got = match got {
        Ok(g) => g,
        Err(p) => return fail(format!("source {bad}"), format!("a function whose source is {bad}: {p}")),
    };
    let _ = h;
    if !got.iter().any(|(p, d)| p == "x.script" && d.iter().any(|n| n == "h")) {
        return fail(format!("source {bad}"), format!("h is missing: {got:?}"));
    }
    Ok(())
}

/// many definitions in one file
fn many(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let n = *ch.of(&[20u32, 100, 1000]);
    let step = *ch.of(&[1u32, 7, 13, 999]);
    let same = ch.flag();
    let mut pl = Pl::new();
    let s = source(&mut pl, 0, "x.script");
    let mut want = vec![];
    for i in 0..n {
        let line = if same { 5 } else { (i * step) % 1009 };
        let id = pl.add(&format!("f{i}"), 0, MVal::Function(fun(Some((s, line)))));
        want.push((line, id));
    }
    want.sort_unstable();
    let read = || -> Vec<u32> {
        let idx = FileIndex::from_pool(&pl.pool);
        let e = idx.iter().find(|e| e.path == Path::new("x.script"));
        e.map(|e| e.definitions.iter().map(|d| d.name.into()).collect()).unwrap_or_default()
    };
    let got = read();
    cx.step();
    cx.state();
    cx.trace();
    let names: Vec<u32> = want
        .iter()
        .map(|(_, id)| pl.pool.definition(PoolIndex::<redscript::definition::Definition>::new(*id)).map(|d| d.name.into()).unwrap_or(0))
        .collect();
    if same {
        let (mut a, mut b) = (names, got.clone());
        a.sort_unstable();
        b.sort_unstable();
        if a != b {
            return fail("many", "definitions are missing");
        }
    } else if got != names {
        return fail(format!("{n} {step}"), "the definitions of a file are not in the order of their first lines");
    }
    if !same && read() != got {
        return fail(format!("{n} again"), "indexed again the definitions have another order");
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let k = usize::from(ctx.thorough());
    for n in 0..4 + k {
        ctx.explore(&format!("{n} definitions"), |ch, cx| index(ch, n, 2, &[0, 3, 10], cx));
    }
    ctx.explore(&format!("{} definitions", 4 + k), |ch, cx| index(ch, 4 + k, 1, &[3], cx));
    ctx.explore("sources that name no file", odd);
    ctx.explore("many definitions", many);
}
