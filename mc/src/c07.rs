//! C07 every history of pool operations behaves like plain tables
use redscript::bundle::{CName, ConstantPool, PoolIndex, Resource, Strings, TweakDbId};
use redscript::definition::{Class, Definition, Enum, Field, Function, Local, Parameter, Type};
use redscript::Ref;

use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::util::{Chooser, Ctx, Cx, Fail};

/// a string table: the strings, and whether "None" stands for index 0
struct Tab {
    v: Vec<String>,
    none: bool,
}

impl Tab {
    fn add(&mut self, x: &str) -> u32 {
        if self.none && x == "None" {
            return 0;
        }
        intern(&mut self.v, x)
    }
    fn get(&self, i: u32) -> Option<&str> {
        if self.none && i == 0 {
            return Some("None");
        }
        self.v.get(i as usize).map(String::as_str)
    }
    fn index(&self, x: &str) -> Option<u32> {
        self.v.iter().position(|y| y == x).map(|i| i as u32)
    }
}

macro_rules! table_fns {
    ($add:ident, $same:ident, $k:ty) => {
        fn $add(t: &mut Strings<$k>, x: &str) -> u32 {
            t.add(Ref::from(x)).into()
        }
        fn $same(t: &Strings<$k>, m: &Tab, probe: &[&str], name: &str) -> Result<(), Fail> {
            for i in (0..m.v.len() as u32 + 2).chain([65535, 65536, u32::MAX]) {
                let i2 = PoolIndex::<$k>::new(i);
                let a = t.get(i2).ok();
                let b = t.get_ref(i2).ok();
                let w = m.get(i);
                ensure!(a.as_deref() == w && b == w, "{name}[{i}] is {a:?}/{b:?}, expected {w:?}");
            }
            for x in probe {
                if m.none && *x == "None" {
                    continue;
                }
                let a = t.get_index(x).map(u32::from);
                ensure!(a == m.index(x), "{name} finds {x:?} at {a:?}, expected {:?}", m.index(x));
            }
            Ok(())
        }
    };
}
table_fns!(add_n, same_n, CName);
table_fns!(add_t, same_t, TweakDbId);
table_fns!(add_r, same_r, Resource);
table_fns!(add_s, same_s, String);

const WORDS: &[&str] = &["None", "", "a", "b", "none"];

fn tables(ch: &mut Chooser, depth: usize, start: &MBundle, cx: &mut Cx) -> Result<(), Fail> {
    let mut pool = load(&start.bytes())?.pool;
    if start.defs.len() == 1 && start.names.is_empty() {
        pool = ConstantPool::default();
    }
    let mut n = Tab { v: start.names.clone(), none: true };
    let mut t = Tab { v: start.tweakdb.clone(), none: false };
    let mut r = Tab { v: start.resources.clone(), none: false };
    let mut st = Tab { v: start.strings.clone(), none: false };
    let mut log = vec![];
    for _ in 0..depth {
        let which = ch.pick(4);
        let x = *ch.of(WORDS);
        let (got, want) = match which {
            0 => (add_n(&mut pool.names, x), n.add(x)),
            1 => (add_t(&mut pool.tweakdb_ids, x), t.add(x)),
            2 => (add_r(&mut pool.resources, x), r.add(x)),
            _ => (add_s(&mut pool.strings, x), st.add(x)),
        };
        log.push((which, x));
        cx.step();
        ensure!(got == want, "{log:?}: index {got}, expected {want}");
    }
    same_n(&pool.names, &n, WORDS, "names").map_err(|e| Fail::from(format!("{log:?}: {}", e.detail)))?;
    same_t(&pool.tweakdb_ids, &t, WORDS, "tweakdb").map_err(|e| Fail::from(format!("{log:?}: {}", e.detail)))?;
    same_r(&pool.resources, &r, WORDS, "resources").map_err(|e| Fail::from(format!("{log:?}: {}", e.detail)))?;
    same_s(&pool.strings, &st, WORDS, "strings").map_err(|e| Fail::from(format!("{log:?}: {}", e.detail)))?;
    // a copy made before is not affected by later additions, and agrees
    let copy = pool.clone();
    add_s(&mut pool.strings, "later");
    same_s(&copy.strings, &st, WORDS, "copied strings")?;
    cx.sample(|| format!("{log:?}"));
    cx.state();
    cx.trace();
    Ok(())
}

fn kind_of(v: &MVal) -> u8 {
    v.tag()
}

fn same_defs(pool: &ConstantPool, defs: &[MDef], names: &Tab, log: &str) -> Result<(), Fail> {
    let n = defs.len() as u32;
    for i in (0..n + 2).chain([65535, u32::MAX]) {
        let m = defs.get(i as usize);
        let d = pool.definition(PoolIndex::<Definition>::new(i)).ok().map(|d| from_def(d).canonical());
        ensure!(d == m.map(|m| m.clone().canonical()), "{log}: definition {i} is {d:?}, expected {m:?}");
        let k = m.map(|m| kind_of(&m.val));
        macro_rules! typed {
            ($get:ident, $t:ty, $tag:literal) => {
                let r = pool.$get(PoolIndex::<$t>::new(i)).is_ok();
                ensure!(r == (k == Some($tag)), "{log}: {} of {i} answered {r}, it holds {k:?}", stringify!($get));
            };
        }
        typed!(type_, Type, 0);
        typed!(class, Class, 1);
        typed!(enum_, Enum, 3);
        typed!(function, Function, 5);
        typed!(parameter, Parameter, 6);
        typed!(local, Local, 7);
        typed!(field, Field, 8);
        let ev = pool.enum_value(PoolIndex::new(i)).ok();
        let want = match m.map(|m| &m.val) {
            Some(MVal::EnumValue(v)) => Some(*v),
            _ => None,
        };
        ensure!(ev == want, "{log}: enum value {i} is {ev:?}, expected {want:?}");
        let nm = pool.def_name(PoolIndex::<Definition>::new(i)).ok();
        let want = m.and_then(|m| names.get(m.name));
        ensure!(nm.as_deref() == want, "{log}: the name of {i} is {nm:?}, expected {want:?}");
    }
    let all: Vec<u32> = pool.definitions().map(|(i, _)| i.into()).collect();
    ensure!(all == (1..n.max(1)).collect::<Vec<_>>(), "{log}: listed {all:?}");
    for (i, d) in pool.definitions() {
        let i: u32 = i.into();
        ensure!(from_def(d).canonical() == defs[i as usize].clone().canonical(), "{log}: listed {i} with another's content");
    }
    let rev: Vec<u32> = pool.definitions().rev().map(|(i, _)| i.into()).collect();
    ensure!(rev == (1..n.max(1)).rev().collect::<Vec<_>>(), "{log}: listed backwards {rev:?}");
    let roots: Vec<u32> = pool.roots().map(|(i, _)| i.into()).collect();
    let want: Vec<u32> = (1..n.max(1)).filter(|i| defs[*i as usize].parent == 0).collect();
    ensure!(roots == want, "{log}: roots {roots:?}, expected {want:?}");
    Ok(())
}

fn some_defs() -> Vec<MDef> {
    let mut f = MFun::empty();
    f.params = vec![3];
    vec![
        MDef::of(1, 0, MVal::Class(MClass { vis: 0, flags: 0, base: 0, functions: vec![], fields: vec![], overrides: vec![] })),
        MDef::of(2, 1, MVal::Function(f)),
        MDef::of(0, 2, MVal::EnumValue(-7)),
        MDef::of(5, 0, MVal::Enum { flags: 0, size: 4, members: vec![], unk1: false }),
        MDef::of(1, 1, MVal::Param { type_: 1, flags: 0 }),
        MDef::of(2, 1, MVal::Local { type_: 1, flags: 0 }),
        MDef::of(2, 0, MVal::Field(MField { vis: 0, type_: 1, flags: 0, hint: None, attributes: vec![], defaults: vec![] })),
        MDef::of(0, 0, MVal::Source { id: 1, hash: 1, path: s("a") }),
        MDef::of(1, 0, MVal::Type(MType::Array(1))),
    ]
}

fn definitions(ch: &mut Chooser, depth: usize, empty: bool, cx: &mut Cx) -> Result<(), Fail> {
    let mut start = MBundle::base();
    start.name("A");
    start.name("B");
    let some = some_defs();
    start.add(some[0].clone());
    start.add(some[1].clone());
    let mut names = Tab { v: start.names.clone(), none: true };
    let (mut pool, mut defs) = if empty {
        names.v.clear();
        (ConstantPool::default(), vec![])
    } else {
        (load(&start.bytes())?.pool, start.defs.clone())
    };
    let mut log = String::new();
    for _ in 0..depth {
        let n = defs.len();
        match ch.pick(if n == 0 { 3 } else { 6 }) {
            0 => {
                let d = ch.of(&some).clone();
                let i: PoolIndex<Definition> = pool.add_definition(to_def(&d));
                log.push_str(&format!(" add#{}", d.val.tag()));
                ensure!(u32::from(i) as usize == n, "{log}: added at {i}");
                defs.push(d);
            }
            1 => {
                let i: PoolIndex<Definition> = pool.reserve();
                log.push_str(" reserve");
                ensure!(u32::from(i) as usize == n, "{log}: reserved {i}");
                defs.push(MDef::placeholder());
            }
            2 => {
                let i: PoolIndex<Definition> = pool.stub_definition(PoolIndex::new(1));
                log.push_str(" stub");
                ensure!(u32::from(i) as usize == n, "{log}: stub at {i}");
                defs.push(MDef::of(1, 0, MVal::Type(MType::Prim)));
            }
            3 => {
                let i = ch.pick(n);
                let d = ch.of(&some[..4]).clone();
                pool.put_definition(PoolIndex::<Definition>::new(i as u32), to_def(&d));
                log.push_str(&format!(" put({i})"));
                defs[i] = d;
            }
            4 => {
                let i = ch.pick(n);
                let j = ch.pick(n);
                pool.swap_definition(PoolIndex::<Definition>::new(i as u32), PoolIndex::new(j as u32));
                log.push_str(&format!(" swap({i},{j})"));
                defs.swap(i, j);
            }
            _ => {
                let i = ch.pick(n);
                let k = ch.pick(3) as u32;
                pool.rename(PoolIndex::<Definition>::new(i as u32), PoolIndex::new(k));
                log.push_str(&format!(" rename({i},{k})"));
                defs[i].name = k;
            }
        }
        cx.step();
        same_defs(&pool, &defs, &names, &log)?;
    }
    cx.sample(|| log.clone());
    cx.state();
    cx.trace();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("index 0 of the names always stands for None; indices given to put, swap and rename exist");
    ctx.explore("string table histories, empty pool", |ch, cx| {
        let mut m = MBundle::base();
        m.names.clear();
        m.tweakdb.clear();
        m.resources.clear();
        m.strings.clear();
        tables(ch, if th { 5 } else { 4 }, &m, cx)
    });
    ctx.explore("string table histories, loaded pool", |ch, cx| {
        let mut m = MBundle::base();
        m.names = vec![s("None"), s("a"), s("x")];
        m.tweakdb = vec![s(""), s("None")];
        m.resources = vec![];
        m.strings = vec![s("b"), s("a")];
        tables(ch, if th { 5 } else { 3 }, &m, cx)
    });
    ctx.explore("string table histories, odd first name", |ch, cx| {
        let mut m = MBundle::base();
        m.names = vec![s(ch.of::<&str>(&["", "a", "None", "zz"])), s("q")];
        tables(ch, 2, &m, cx)
    });
    ctx.explore("string tables that hold a string twice", |ch, cx| {
        // a file may hold equal strings at several indices: all of them stay readable, and later
        // additions get an index that names the string that was added
        let mut m = MBundle::base();
        m.names = vec![s("None"), s("a"), s("a")];
        m.tweakdb = vec![s("a"), s(""), s("a"), s("b"), s("b")];
        m.resources = vec![s("b"), s("b")];
        m.strings = vec![s(""), s("a"), s("")];
        let mut pool = load(&m.bytes())?.pool;
        let mut tabs = [
            Tab { v: m.names.clone(), none: true },
            Tab { v: m.tweakdb.clone(), none: false },
            Tab { v: m.resources.clone(), none: false },
            Tab { v: m.strings.clone(), none: false },
        ];
        for _ in 0..if th { 4 } else { 3 } {
            let which = ch.pick(4);
            let x = *ch.of(&["a", "b", "", "c", "d"]);
            let i = match which {
                0 => add_n(&mut pool.names, x),
                1 => add_t(&mut pool.tweakdb_ids, x),
                2 => add_r(&mut pool.resources, x),
                _ => add_s(&mut pool.strings, x),
            };
            let t = &mut tabs[which];
            if t.index(x).is_none() {
                ensure!(i as usize == t.v.len(), "{x:?} added to table {which} at {i}");
                t.v.push(s(x));
            } else {
                ensure!(t.get(i) == Some(x), "{x:?} in table {which} was given index {i}, which holds {:?}", t.get(i));
            }
            cx.step();
            same_n(&pool.names, &tabs[0], &[], "names")?;
            same_t(&pool.tweakdb_ids, &tabs[1], &[], "tweakdb")?;
            same_r(&pool.resources, &tabs[2], &[], "resources")?;
            same_s(&pool.strings, &tabs[3], &[], "strings")?;
        }
        cx.state();
        cx.trace();
        Ok(())
    });
    let shorts = short_strings();
    ctx.explore("pairs of short strings", |ch, cx| {
        let which = ch.pick(4);
        let (x, y) = (ch.of(&shorts).clone(), ch.of(&shorts).clone());
        let mut pool = ConstantPool::default();
        let mut t = Tab { v: vec![], none: which == 0 };
        for z in ["first", &x, &y, &x] {
            let got = match which {
                0 => add_n(&mut pool.names, z),
                1 => add_t(&mut pool.tweakdb_ids, z),
                2 => add_r(&mut pool.resources, z),
                _ => add_s(&mut pool.strings, z),
            };
            let want = t.add(z);
            ensure!(got == want, "adding {x:?}, {y:?}, {x:?} to table {which}: {z:?} at {got}, expected {want}");
            cx.step();
        }
        let probe = ["first", &x[..], &y[..]];
        match which {
            0 => same_n(&pool.names, &t, &probe, "names"),
            1 => same_t(&pool.tweakdb_ids, &t, &probe, "tweakdb"),
            2 => same_r(&pool.resources, &t, &probe, "resources"),
            _ => same_s(&pool.strings, &t, &probe, "strings"),
        }?;
        cx.state();
        cx.trace();
        Ok(())
    });
    ctx.explore("large string tables", |ch, cx| {
        // n distinct strings, each added twice in turn, then everything looked up
        let n = *ch.of(&[10usize, 127, 128, 129, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 70000]);
        let mut pool = ConstantPool::default();
        let which = ch.pick(4);
        let long = ch.flag();
        let mk = |i: usize| if long { format!("a longer string, number {i}, shared by all") } else { format!("{i}") };
        let mut add = |p: &mut ConstantPool, x: &str| match which {
            0 => add_n(&mut p.names, x),
            1 => add_t(&mut p.tweakdb_ids, x),
            2 => add_r(&mut p.resources, x),
            _ => add_s(&mut p.strings, x),
        };
        for i in 0..n {
            let a = add(&mut pool, &mk(i));
            ensure!(a as usize == i, "string {i} at {a}");
            let j = i / 2;
            let b = add(&mut pool, &mk(j));
            ensure!(b as usize == j, "string {j} again at {b}");
            cx.step();
        }
        for i in 0..n {
            let i2 = i as u32;
            let x = match which {
                0 if i == 0 => Some(mk(0)), // index 0 of the names is always None
                0 => pool.names.get(PoolIndex::new(i2)).ok().map(|x| x.to_string()),
                1 => pool.tweakdb_ids.get(PoolIndex::new(i2)).ok().map(|x| x.to_string()),
                2 => pool.resources.get(PoolIndex::new(i2)).ok().map(|x| x.to_string()),
                _ => pool.strings.get(PoolIndex::new(i2)).ok().map(|x| x.to_string()),
            };
            ensure!(x.as_deref() == Some(&mk(i)[..]), "string {i} is {x:?}");
        }
        cx.state();
        cx.trace();
        Ok(())
    });
    ctx.explore("definition histories, loaded pool", |ch, cx| definitions(ch, if th { 4 } else { 3 }, false, cx));
    ctx.explore("definition histories, empty pool", |ch, cx| definitions(ch, if th { 5 } else { 4 }, true, cx));
    ctx.explore("mutable access reaches the same entry", |ch, cx| {
        let mut m = MBundle::base();
        m.name("A");
        let some = some_defs();
        let rot = ch.pick(some.len());
        for i in 0..some.len() {
            m.add(some[(i + rot) % some.len()].clone());
        }
        let mut pool = load(&m.bytes())?.pool;
        for i in 0..m.defs.len() as u32 + 1 {
            let k = m.defs.get(i as usize).map(|d| d.val.tag());
            ensure!(pool.class_mut(PoolIndex::new(i)).is_ok() == (k == Some(1)), "class_mut {i}");
            ensure!(pool.function_mut(PoolIndex::new(i)).is_ok() == (k == Some(5)), "function_mut {i}");
            ensure!(pool.field_mut(PoolIndex::new(i)).is_ok() == (k == Some(8)), "field_mut {i}");
            if let Ok(c) = pool.class_mut(PoolIndex::new(i)) {
                c.base = PoolIndex::new(99);
                if let MVal::Class(c) = &mut m.defs[i as usize].val {
                    c.base = 99;
                }
            }
            if let Ok(f) = pool.function_mut(PoolIndex::new(i)) {
                f.cast = 9;
                if let MVal::Function(f) = &mut m.defs[i as usize].val {
                    f.cast = 9;
                }
            }
            if let Ok(f) = pool.field_mut(PoolIndex::new(i)) {
                f.type_ = PoolIndex::new(9);
                if let MVal::Field(f) = &mut m.defs[i as usize].val {
                    f.type_ = 9;
                }
            }
            let got = View::of(&pool).canonical();
            let want = View::expected(&m);
            ensure!(got == want, "{}", got.diff(&want));
            cx.step();
        }
        cx.state();
        cx.trace();
        Ok(())
    });
}
