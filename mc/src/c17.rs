//! C17 code and definitions that no compiler wrote
use redscript::bundle::PoolIndex;
use redscript::bytecode::Code;
use redscript::definition::{Definition, Function};
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};

use crate::c15::Pl;
use crate::model::*;
use crate::ops::{self, Kind, MInstr, Val};
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};

struct Zoo {
    pl: Pl,
    /// one definition of every kind
    kinds: Vec<u32>,
    fun: u32,
    /// functions with odd names and parameter counts
    funs: Vec<u32>,
    names: Vec<u32>,
}

impl Zoo {
    fn new() -> Self {
        let mut pl = Pl::new();
        let t = pl.add("Int32", 0, MVal::Type(MType::Prim));
        let c = pl.add("A", 0, MVal::EnumValue(0));
        let s = pl.add("", 0, MVal::Source { id: 1, hash: 2, path: "a.script".into() });
        let f = pl.add("f", c, MVal::Field(MField { vis: 0, type_: t, flags: 0, hint: None, attributes: vec![], defaults: vec![] }));
        let p = pl.add("p", c, MVal::Param { type_: t, flags: 0 });
        let l = pl.add("l", c, MVal::Local { type_: t, flags: 0 });
        let e = pl.add("tmp", 0, MVal::EnumValue(0));
        let v = pl.add("v", e, MVal::EnumValue(0));
        pl.put(e, "En", 0, MVal::Enum { flags: 0, size: 4, members: vec![v], unk1: false });
        let mut funs = vec![];
        for (n, stat, parent) in [
            ("OperatorAdd;Int32Int32;Int32", true, 0),
            ("OperatorLogicNot;Bool;Bool", true, 0),
            ("OperatorAssignAdd", false, c),
            ("AsRef;A", true, 0),
            ("WeakRefToRef", true, c),
            ("Cast;Float", true, 0),
            (";", true, 0),
            ("Plain;Int32", false, c),
        ] {
            let mut f = MFun::empty();
            f.source = None;
            f.flags = ff::NATIVE | if stat { ff::STATIC } else { 0 };
            funs.push(pl.add(n, parent, MVal::Function(f)));
        }
        let mut m = MFun::empty();
        m.flags = ff::BODY;
        m.source = Some((s, 1));
        let fun = pl.add("main;", c, MVal::Function(m));
        pl.put(c, "A", 0, MVal::Class(MClass { vis: 0, flags: 0, base: 0, functions: vec![fun], fields: vec![f], overrides: vec![] }));
        let names = vec![pl.name("None"), pl.name("OperatorSubtract;Int32"), pl.name("OperatorBitNot"), pl.name("RefToWeakRef;"), 9999];
        let kinds = vec![t, c, s, f, p, l, e, v, fun, 0, 9999, u32::MAX];
        Zoo { pl, kinds, fun, funs, names }
    }

    fn set(&mut self, code: &[MInstr]) {
        let f: &mut Function = self.pl.pool.function_mut(PoolIndex::new(self.fun)).expect("harness: function");
        f.code = Code::new(code.iter().map(ops::build).collect());
    }

    /// everything that can be shown of a definition ends
    fn show(&self, at: u32, what: &dyn Fn() -> String, cx: &mut Cx) -> Result<(), Fail> {
        let pool = &self.pl.pool;
        for mode in [OutputMode::Code { verbose: true }, OutputMode::Code { verbose: false }, OutputMode::SyntaxTree, OutputMode::Bytecode] {
            let r = guarded(|| {
                let mut out = vec![];
                let def = pool.definition(PoolIndex::<Definition>::new(at)).expect("harness: definition");
                let r = write_definition(&mut out, def, pool, 0, mode);
                (r.is_ok(), out)
            });
            cx.step();
            match r {
                Ok((ok, out)) => {
                    if std::str::from_utf8(&out).is_err() {
                        return fail(what(), format!("{}: the text is not UTF-8", what()));
                    }
                    cx.sample(|| format!("{}: ok={ok} {:?}", what(), String::from_utf8_lossy(&out)));
                }
                Err(p) => return fail(what(), format!("{} shown as {mode:?}: {p}", what())),
            }
        }
        cx.state();
        cx.trace();
        Ok(())
    }
}

thread_local! {
    static ZOO: std::cell::RefCell<Zoo> = std::cell::RefCell::new(Zoo::new());
}

/// every instruction with every kind of index and boundary offsets
fn alphabet(z: &Zoo) -> Vec<MInstr> {
    let mut out = vec![];
    for s in ops::OPS.iter() {
        let mut all: Vec<Vec<Val>> = vec![vec![]];
        for (i, k) in s.kinds.iter().enumerate() {
            let dom: Vec<Val> = match k {
                Kind::Idx if s.op == 37 => z.names.iter().map(|i| Val::Int(i64::from(*i))).collect(),
                Kind::StrIdx => [0i64, 9999].map(Val::Int).to_vec(),
                Kind::Idx if [14, 17, 18].contains(&s.op) => [0i64, 9999].map(Val::Int).to_vec(),
                Kind::Idx => {
                    let mut v: Vec<Val> = z.kinds.iter().map(|i| Val::Int(i64::from(*i))).collect();
                    if s.op == 36 {
                        v.extend(z.funs.iter().map(|i| Val::Int(i64::from(*i))));
                    }
                    v
                }
                Kind::Off if i == 0 => [-32768i64, -3, 0, 1, 3, 4, 12, 32767].map(Val::Int).to_vec(),
                Kind::Off => [-3i64, 0, 3, 5].map(Val::Int).to_vec(),
                k => ops::small_domain(*k).into_iter().take(2).collect(),
            };
            all = all.into_iter().flat_map(|p| dom.iter().map(move |d| [p.clone(), vec![d.clone()]].concat())).collect();
        }
        out.extend(all.into_iter().map(|v| MInstr::new(s.op, v)));
    }
    out
}

fn code(ch: &mut Chooser, sets: &[&[MInstr]], cx: &mut Cx) -> Result<(), Fail> {
    let code: Vec<MInstr> = sets.iter().map(|s| ch.of(s).clone()).collect();
    ZOO.with(|z| {
        let mut z = z.borrow_mut();
        z.set(&code);
        let fun = z.fun;
        z.show(fun, &|| ops::show_code(&code), cx)
    })
}

/// control flow with every target: kinds first, then where each operand leads
fn flow(ch: &mut Chooser, lead: &[u8], n: usize, kinds: &[u8], cx: &mut Cx) -> Result<(), Fail> {
    let mut ks = lead.to_vec();
    ks.extend((lead.len()..n).map(|_| *ch.of(kinds)));
    let blank = |k: u8| MInstr::ints(k, &vec![0; ops::spec(k).kinds.len()]);
    let mut pos = vec![0i64];
    for k in &ks {
        pos.push(pos.last().unwrap() + blank(*k).vm_size() as i64);
    }
    let mut code = vec![];
    for (i, k) in ks.iter().enumerate() {
        let mut vals = vec![];
        for kd in ops::spec(*k).kinds {
            vals.push(match kd {
                Kind::Off => {
                    let t = ch.pick(n + 2);
                    // any boundary, or the middle of the first instruction
                    if t == n + 1 {
                        1 - pos[i]
                    } else {
                        pos[t] - pos[i]
                    }
                }
                _ => 0,
            });
        }
        code.push(MInstr::ints(*k, &vals));
    }
    ZOO.with(|z| {
        let mut z = z.borrow_mut();
        z.set(&code);
        let fun = z.fun;
        z.show(fun, &|| ops::show_code(&code), cx)
    })
}

/// definitions that refer to the wrong things
fn definitions(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let mut z = Zoo::new();
    let x = z.pl.add("x", 0, MVal::EnumValue(0));
    let mut kinds = z.kinds.clone();
    kinds.push(x);
    kinds.push(z.funs[0]);
    // types that contain each other
    let y = z.pl.add("y", 0, MVal::Type(MType::Ref(x)));
    kinds.push(y);
    let a = *ch.of(&kinds);
    let b = *ch.of(&kinds);
    let val = match ch.pick(9) {
        0 => MVal::Type(match ch.pick(5) {
            0 => MType::Ref(a),
            1 => MType::WeakRef(a),
            2 => MType::Array(a),
            3 => MType::StaticArray(a, 3),
            _ => MType::ScriptRef(a),
        }),
        1 => MVal::Class(MClass { vis: 0, flags: 0, base: b, functions: vec![a], fields: vec![], overrides: vec![] }),
        2 => MVal::Class(MClass { vis: 0, flags: 0, base: 0, functions: vec![], fields: vec![a, b], overrides: vec![] }),
        3 => MVal::Enum { flags: 0, size: 4, members: vec![a, b], unk1: false },
        4 | 5 | 6 => {
            let mut f = MFun::empty();
            f.flags = ff::BODY;
            match ch.pick(4) {
                0 => {
                    f.ret = Some((a, false));
                    f.flags |= ff::RETURN;
                }
                1 => f.params = vec![a, b],
                2 => f.locals = vec![a, b],
                _ => f.source = Some((a, 0)),
            }
            f.code = vec![MInstr::ints(39, &[]), MInstr::ints(24, &[i64::from(b)])];
            MVal::Function(f)
        }
        7 => match ch.pick(3) {
            0 => MVal::Param { type_: a, flags: 0 },
            1 => MVal::Local { type_: a, flags: 0 },
            _ => MVal::Field(MField { vis: 0, type_: a, flags: 0, hint: None, attributes: vec![], defaults: vec![] }),
        },
        _ => MVal::Source { id: 0, hash: 0, path: "x".into() },
    };
    let text = format!("{val:?}");
    cx.case(|| text.clone());
    z.pl.put(x, "x", 0, val);
    if ch.flag() {
        let mut d = z.pl.pool.definition(PoolIndex::<Definition>::new(x)).expect("harness: x").clone();
        d.name = PoolIndex::new(9999);
        z.pl.pool.put_definition(PoolIndex::<Definition>::new(x), d);
    }
    z.show(x, &|| text.clone(), cx)?;
    z.show(z.fun, &|| text.clone(), cx)?;
    z.show(y, &|| text.clone(), cx)?;
    if let Err(p) = guarded(|| {
        let idx = FileIndex::from_pool(&z.pl.pool);
        let n = idx.iter().map(|e| e.definitions.len()).sum::<usize>();
        n
    }) {
        return fail(text.clone(), format!("{text}: {p}"));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    crate::alloc::limit(512 << 20);
    let th = ctx.thorough();
    let all = ZOO.with(|z| alphabet(&z.borrow()));
    let reps = ops::representatives();
    // the class and the function are the interesting indices of the second place
    let some: Vec<MInstr> = {
        let mut seen = std::collections::HashMap::new();
        all.iter()
            .filter(|i| {
                let n: &mut usize = seen.entry(i.op).or_default();
                *n += 1;
                *n <= 3 || [28, 29, 31, 32, 33, 36, 37].contains(&i.op)
            })
            .cloned()
            .collect()
    };
    ctx.explore("definitions", definitions);
    ctx.explore("one instruction", |ch, cx| code(ch, &[&all], cx));
    ctx.explore("two instructions", |ch, cx| code(ch, &[&all, &some], cx));
    let mut calls: Vec<MInstr> = all.iter().filter(|i| [36, 37].contains(&i.op)).cloned().collect();
    for c in &mut calls {
        for i in [0, 1, 3] {
            c.vals[i] = Val::Int(3);
        }
    }
    calls.dedup();
    calls.sort_by_key(|c| (c.op, c.vals[2].int()));
    calls.dedup();
    let few: Vec<MInstr> = [0, 19, 24, 33, 36, 38, 39, 41, 50].into_iter().map(|o| reps.iter().find(|r| r.op == o).unwrap().clone()).collect();
    // calls with up to three arguments
    for n in 0..4 {
        ctx.explore(&format!("calls with {n} arguments"), |ch, cx| {
            let mut sets: Vec<&[MInstr]> = vec![&calls];
            sets.extend((0..n).map(|_| &few[..]));
            sets.extend([&reps[..], &few[5..6]]);
            code(ch, &sets, cx)
        });
    }
    ctx.explore("calls in calls", |ch, cx| code(ch, &[&calls, &few, &calls, &few, &few], cx));
    ctx.explore("three instructions", |ch, cx| code(ch, &[if th { &some } else { &reps }, &reps, &reps], cx));
    let flow_kinds: &[u8] = &[0, 19, 39, 28, 29, 30, 31, 32, 33, 38, 36, 41, 34];
    ctx.explore("control flow 3", |ch, cx| flow(ch, &[], 3, flow_kinds, cx));
    let core: &[u8] = &[0, 19, 39, 28, 29, 30, 31, 32];
    ctx.explore("control flow 4", |ch, cx| flow(ch, &[], 4, core, cx));
    ctx.explore("switches 5", |ch, cx| flow(ch, &[28, 19], 5, &[19, 28, 29, 30, 31], cx));
    if th {
        ctx.explore("branches 5", |ch, cx| flow(ch, &[], 5, &[0, 19, 31, 32], cx));
    }
}
