//! C15 printed declarations
use redscript::bundle::{CName, ConstantPool, PoolIndex};
use redscript::definition::Definition;
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;

use crate::ex::{meaning, parsed, w, w_seq, Parser, W};
use crate::model::*;
use crate::ops::{self, MInstr};
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};

pub struct Pl {
    pub pool: ConstantPool,
}

impl Pl {
    pub fn new() -> Self {
        let mut pool = ConstantPool::default();
        pool.names.add(redscript::Ref::from("zero"));
        pool.reserve::<Definition>();
        Pl { pool }
    }
    pub fn name(&mut self, s: &str) -> u32 {
        let i: PoolIndex<CName> = self.pool.names.add(redscript::Ref::from(s));
        i.into()
    }
    pub fn add(&mut self, name: &str, parent: u32, val: MVal) -> u32 {
        let name = self.name(name);
        self.pool.add_definition::<Definition>(to_def(&MDef { name, parent, unk: [0; 3], val })).into()
    }
    pub fn put(&mut self, at: u32, name: &str, parent: u32, val: MVal) {
        let name = self.name(name);
        self.pool.put_definition(PoolIndex::<Definition>::new(at), to_def(&MDef { name, parent, unk: [0; 3], val }));
    }
    pub fn print(&self, at: u32, mode: OutputMode, depth: usize) -> Result<String, Fail> {
        let def = self.pool.definition(PoolIndex::<Definition>::new(at)).expect("harness: definition");
        let mut out = vec![];
        match guarded(|| write_definition(&mut out, def, &self.pool, depth, mode)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return fail("error", e.to_string()),
            Err(p) => return fail("panic", p),
        }
        String::from_utf8(out).map_err(|e| Fail { key: "utf8".into(), detail: e.to_string() })
    }
}

type P<T> = Result<T, String>;

const VIS: [&str; 3] = ["public", "protected", "private"];
const WORDS: &[&str] = &[
    "public", "protected", "private", "abstract", "final", "importonly", "native", "static", "exec", "const", "quest", "cb", "inline",
    "replicated", "edit", "persistent", "out", "opt",
];

fn mods(p: &mut Parser) -> Vec<String> {
    let mut out = vec![];
    'next: loop {
        p.ws();
        for m in WORDS {
            if p.keyword(m) {
                out.push((*m).to_string());
                continue 'next;
            }
        }
        out.sort();
        return out;
    }
}

fn set(m: &[&str]) -> String {
    let mut m: Vec<&str> = m.to_vec();
    m.sort_unstable();
    m.join(" ")
}

fn dtype(p: &mut Parser) -> P<String> {
    let n = p.ident()?;
    if p.eat("<") {
        let t = dtype(p)?;
        let size = if p.eat(";") {
            p.ws();
            Some(p.digits()?)
        } else {
            None
        };
        p.need(">")?;
        return Ok(match size {
            Some(s) => format!("{n}<{t};{s}>"),
            None => format!("{n}<{t}>"),
        });
    }
    Ok(n)
}

fn params(p: &mut Parser) -> P<Vec<W>> {
    let mut out = vec![];
    p.need("(")?;
    p.ws();
    if p.eat(")") {
        return Ok(out);
    }
    loop {
        let m = mods(p);
        let n = p.ident()?;
        p.need(":")?;
        p.ws();
        let t = dtype(p)?;
        out.push(w(format!("param [{}] {n} {t}", m.join(" ")), vec![]));
        p.ws();
        if !p.eat(",") {
            break;
        }
    }
    p.need(")")?;
    Ok(out)
}

/// a declaration: class, struct, enum, function or field
fn decl(p: &mut Parser) -> P<W> {
    let mut k = vec![];
    loop {
        p.ws();
        if p.eat("@runtimeProperty(") {
            let a = p.string()?;
            p.need(",")?;
            p.ws();
            let b = p.string()?;
            p.need(")")?;
            k.push(w(format!("property {a:?} {b:?}"), vec![]));
        } else if p.eat("@default(") {
            let l = p.line();
            let Some(l) = l.strip_suffix(')') else { return Err(format!("@default({l}")) };
            k.push(w(format!("default {l}"), vec![]));
        } else {
            break;
        }
    }
    let m = mods(p).join(" ");
    if p.keyword("enum") {
        p.ws();
        let n = p.ident()?;
        p.need("{")?;
        loop {
            p.ws();
            if p.eat("}") {
                break;
            }
            let v = p.ident()?;
            p.need("=")?;
            p.ws();
            let neg = p.eat("-");
            let d = p.digits()?;
            k.push(w(format!("value {v} {}{d}", if neg { "-" } else { "" }), vec![]));
            p.need(",")?;
        }
        return Ok(w(format!("enum [{m}] {n}"), k));
    }
    for kind in ["class", "struct"] {
        if p.keyword(kind) {
            p.ws();
            let n = p.ident()?;
            p.ws();
            let base = if p.keyword("extends") {
                p.ws();
                p.ident()?
            } else {
                String::new()
            };
            p.need("{")?;
            loop {
                p.ws();
                if p.eat("}") {
                    break;
                }
                k.push(decl(p)?);
            }
            return Ok(w(format!("{kind} [{m}] {n} < {base}"), k));
        }
    }
    if p.keyword("let") {
        p.ws();
        let n = p.ident()?;
        p.need(":")?;
        p.ws();
        let t = dtype(p)?;
        p.need(";")?;
        return Ok(w(format!("field [{m}] {n} {t}"), k));
    }
    if p.keyword("func") {
        p.ws();
        let n = p.ident()?;
        k.extend(params(p)?);
        p.need("->")?;
        p.ws();
        let t = dtype(p)?;
        p.ws();
        if p.eat(";") {
            k.push(w("no body", vec![]));
        } else {
            k.push(parsed(&p.block()?));
        }
        return Ok(w(format!("func [{m}] {n} {t}"), k));
    }
    Err(p.err_at("declaration"))
}

fn layout(text: &str, depth: usize) -> Result<(), String> {
    let mut level = depth;
    for line in text.lines() {
        if line.is_empty() {
            continue;
        }
        let t = line.trim_start_matches(' ');
        if t.starts_with('}') {
            level -= 1;
        }
        if line.len() - t.len() != 2 * level {
            return Err(format!("line {line:?} is not indented by {}", 2 * level));
        }
        if t.ends_with('{') {
            level += 1;
        }
    }
    Ok(())
}

fn check(pl: &Pl, at: u32, want: &W, depth: usize, cx: &mut Cx) -> Result<(), Fail> {
    let text = pl.print(at, OutputMode::Code { verbose: false }, depth)?;
    cx.step();
    let mut p = Parser::new(&text);
    let got = match decl(&mut p) {
        Ok(t) if p.at_end() => t,
        Ok(t) => return fail(format!("{want:?}"), format!("{text:?} has more than {t:?}")),
        Err(e) => return fail(format!("{want:?}"), format!("{want:?}\n  printed as {text:?}\n  cannot be read: {e}")),
    };
    cx.state();
    cx.trace();
    cx.sample(|| format!("{text:?}"));
    if got != *want {
        return fail(format!("{want:?}"), format!("{want:?}\n  printed as {text:?}\n  reads as {got:?}"));
    }
    if let Err(e) = layout(&text, depth) {
        return fail(format!("layout {want:?}"), format!("{e}: {text:?}"));
    }
    Ok(())
}

fn class(vis: u8, flags: u16, base: u32) -> MClass {
    MClass { vis, flags, base, functions: vec![], fields: vec![], overrides: vec![] }
}

fn class_mods(vis: u8, flags: u16) -> Vec<&'static str> {
    let mut m = vec![VIS[usize::from(vis)]];
    for (b, s) in [(cf::ABSTRACT, "abstract"), (cf::FINAL, "final")] {
        if flags & b != 0 {
            m.push(s);
        }
    }
    if flags & cf::IMPORT_ONLY != 0 {
        m.push("importonly");
    } else if flags & cf::NATIVE != 0 {
        m.push("native");
    }
    m
}

fn class_head(vis: u8, flags: u16, name: &str, base: &str) -> String {
    let kind = if flags & cf::STRUCT != 0 { "struct" } else { "class" };
    format!("{kind} [{}] {name} < {base}", set(&class_mods(vis, flags)))
}

fn class_flags(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let flags = (ch.pick(16) << 12 | ch.pick(4096)) as u16;
    let vis = ch.pick(3) as u8;
    let based = ch.flag();
    let mut pl = Pl::new();
    let base = pl.add("Base", 0, MVal::Class(class(0, 0, 0)));
    let c = pl.add("A", 0, MVal::Class(class(vis, flags, if based { base } else { 0 })));
    check(&pl, c, &w(class_head(vis, flags, "A", if based { "Base" } else { "" }), vec![]), 0, cx)
}

const FUN_WORDS: [(u32, &str); 7] = [
    (ff::FINAL, "final"),
    (ff::STATIC, "static"),
    (ff::NATIVE, "native"),
    (ff::EXEC, "exec"),
    (ff::CONST, "const"),
    (ff::QUEST, "quest"),
    (ff::CALLBACK, "cb"),
];

fn fun_mods(vis: u8, flags: u32) -> String {
    let mut m = vec![VIS[usize::from(vis)]];
    m.extend(FUN_WORDS.iter().filter(|(b, _)| flags & b != 0).map(|(_, s)| *s));
    set(&m)
}

fn nop() -> Vec<MInstr> {
    vec![MInstr::ints(0, &[])]
}

fn fun_flags(ch: &mut Chooser, all: bool, cx: &mut Cx) -> Result<(), Fail> {
    let mut flags = 0;
    for (b, _) in FUN_WORDS {
        if ch.flag() {
            flags |= b;
        }
    }
    let shown: u32 = FUN_WORDS.iter().map(|(b, _)| b).sum();
    let rest: Vec<u32> = (0..32).map(|i| 1u32 << i).filter(|b| shown & b == 0 && *b != ff::BODY).collect();
    match ch.pick(rest.len() + 2) {
        0 => {}
        1 => flags |= rest.iter().sum::<u32>(),
        i => {
            flags |= rest[i - 2];
            if all {
                flags |= rest[ch.pick(rest.len())];
            }
        }
    }
    let bodied = ch.flag();
    if bodied {
        flags |= ff::BODY;
    }
    let vis = ch.pick(3) as u8;
    let ret = ch.flag();
    let depth = ch.pick(2);
    let mut pl = Pl::new();
    let t = pl.add("Int32", 0, MVal::Type(MType::Prim));
    let mut f = MFun::empty();
    f.vis = vis;
    f.flags = flags;
    f.ret = ret.then_some((t, false));
    f.code = nop();
    let c = pl.add("fun;Int32", 0, MVal::Function(f));
    let want = w(
        format!("func [{}] fun {}", fun_mods(vis, flags), if ret { "Int32" } else { "Void" }),
        vec![if bodied { w("seq", vec![]) } else { w("no body", vec![]) }],
    );
    check(&pl, c, &want, depth, cx)
}

/// a type of bounded depth and its text
fn a_type(ch: &mut Chooser, pl: &mut Pl, depth: usize, sizes: &[u32]) -> (u32, String) {
    let long = "gameObject_with_a_very_long_name_that_does_not_fit_inline";
    if depth == 0 {
        return match ch.pick(3) {
            0 => (pl.add("Int32", 0, MVal::Type(MType::Prim)), "Int32".into()),
            1 => (pl.add("A_1", 0, MVal::Type(MType::Class)), "A_1".into()),
            _ => (pl.add(long, 0, MVal::Type(MType::Class)), long.into()),
        };
    }
    let (i, t) = a_type(ch, pl, depth - 1, sizes);
    let (v, s) = match ch.pick(4 + sizes.len()) {
        0 => (MType::Ref(i), format!("ref<{t}>")),
        1 => (MType::WeakRef(i), format!("wref<{t}>")),
        2 => (MType::Array(i), format!("array<{t}>")),
        3 => (MType::ScriptRef(i), format!("script_ref<{t}>")),
        n => (MType::StaticArray(i, sizes[n - 4]), format!("array<{t};{}>", sizes[n - 4])),
    };
    (pl.add("its:name", 0, MVal::Type(v)), s)
}

fn types(ch: &mut Chooser, max: usize, cx: &mut Cx) -> Result<(), Fail> {
    let mut pl = Pl::new();
    let depth = ch.pick(max + 1);
    let sizes: &[u32] = if depth <= 2 { &[0, 1, 9, 10, 65536, u32::MAX] } else { &[32] };
    let (t, s) = a_type(ch, &mut pl, depth, sizes);
    match ch.pick(3) {
        0 => {
            let mut f = MFun::empty();
            f.ret = Some((t, false));
            let c = pl.add("fun", 0, MVal::Function(f));
            check(&pl, c, &w(format!("func [public] fun {s}"), vec![w("no body", vec![])]), 0, cx)
        }
        1 => {
            let f = MField { vis: 0, type_: t, flags: 0, hint: None, attributes: vec![], defaults: vec![] };
            let c = pl.add("a", 0, MVal::Field(f));
            check(&pl, c, &w(format!("field [public] a {s}"), vec![]), 0, cx)
        }
        _ => {
            // the type and the parameter by themselves
            let text = pl.print(t, OutputMode::Code { verbose: false }, 0)?;
            let p = pl.add("par", 0, MVal::Param { type_: t, flags: 2 });
            let ptext = pl.print(p, OutputMode::Code { verbose: false }, 0)?;
            cx.step();
            let r = dtype(&mut Parser::new(&text));
            if r != Ok(s.clone()) {
                return fail(s.clone(), format!("{s} printed as {text:?}"));
            }
            if ptext != format!("out par: {text}") {
                return fail(s.clone(), format!("out parameter of {s} printed as {ptext:?}"));
            }
            let mut f = MFun::empty();
            f.flags = ff::PARAMS;
            f.params = vec![p];
            let c = pl.add("fun", 0, MVal::Function(f));
            check(&pl, c, &w("func [public] fun Void", vec![w(format!("param [out] par {s}"), vec![]), w("no body", vec![])]), 0, cx)
        }
    }
}

fn parameters(ch: &mut Chooser, max: usize, cx: &mut Cx) -> Result<(), Fail> {
    let mut pl = Pl::new();
    let t = [pl.add("Int32", 0, MVal::Type(MType::Prim)), pl.add("A", 0, MVal::Type(MType::Class))];
    let n = ch.pick(max + 1);
    let mut f = MFun::empty();
    let mut k = vec![];
    for i in 0..n {
        let flags = if n == 1 { ch.pick(256) as u8 } else { *ch.of(&[0u8, 1, 2, 4, 8, 11]) };
        let ty = if n < 4 { ch.pick(2) } else { i % 2 };
        let name = format!("p{i}");
        f.params.push(pl.add(&name, 0, MVal::Param { type_: t[ty], flags }));
        let mut m = vec![];
        for (b, s) in [(1, "opt"), (2, "out"), (8, "const")] {
            if flags & b != 0 {
                m.push(s);
            }
        }
        k.push(w(format!("param [{}] {name} {}", set(&m), ["Int32", "A"][ty]), vec![]));
    }
    f.flags = ff::PARAMS;
    k.push(w("no body", vec![]));
    let names = ["fun", "fun;Int32", "fun;;", "f;A;B", "OperatorAdd;Int32Int32;Int32", "Cast;Int32;Float"];
    let name = if n <= 2 { *ch.of(&names) } else { "fun;Int32" };
    let c = pl.add(name, 0, MVal::Function(f));
    check(&pl, c, &w(format!("func [public] {} Void", name.split(';').next().unwrap()), k), 0, cx)
}

const FIELD_WORDS: [(u16, &str); 6] = [
    (fdf::NATIVE, "native"),
    (fdf::EDITABLE, "edit"),
    (fdf::INLINE, "inline"),
    (fdf::CONST, "const"),
    (fdf::REPLICATED, "replicated"),
    (fdf::PERSISTENT, "persistent"),
];

fn field_mods(vis: u8, flags: u16) -> String {
    let mut m = vec![VIS[usize::from(vis)]];
    m.extend(FIELD_WORDS.iter().filter(|(b, _)| flags & b != 0).map(|(_, s)| *s));
    set(&m)
}

fn field_flags(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let flags = (ch.pick(16) << 12 | ch.pick(4096)) as u16;
    let vis = ch.pick(3) as u8;
    let depth = ch.pick(2);
    let mut pl = Pl::new();
    let t = pl.add("Int32", 0, MVal::Type(MType::Prim));
    let hint = (flags & fdf::HINT != 0).then(|| "hint".to_owned());
    let f = MField { vis, type_: t, flags, hint, attributes: vec![], defaults: vec![] };
    let c = pl.add("a", 0, MVal::Field(f));
    check(&pl, c, &w(format!("field [{}] a Int32", field_mods(vis, flags)), vec![]), depth, cx)
}

fn properties(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let mut pl = Pl::new();
    let t = pl.add("Int32", 0, MVal::Type(MType::Prim));
    let vals = ["", "a", "ModSettings.mod", "1.5", "a \"b\"", "c:\\d\\n", "x\ny\t", "é€", "'", "a, b)", "\\(x)"];
    let mut k = vec![];
    let mut attributes = vec![];
    for i in 0..ch.pick(3) {
        let (a, b) = if i == 0 { (*ch.of(&vals), *ch.of(&vals)) } else { (*ch.of(&vals[..5]), *ch.of(&vals[3..7])) };
        attributes.push((a.to_owned(), b.to_owned()));
        k.push(w(format!("property {a:?} {b:?}"), vec![]));
    }
    let mut defaults = vec![];
    for _ in 0..ch.pick(3) {
        let (a, b) = (*ch.of(&["A", "gameObject"]), *ch.of(&["1", "-0.5", "n\"x\"", "Enum.Value"]));
        defaults.push((a.to_owned(), b.to_owned()));
        k.push(w(format!("default {a}, {b}"), vec![]));
    }
    let flags = if defaults.is_empty() { 0 } else { fdf::HAS_DEFAULT };
    let c = pl.add("a", 0, MVal::Field(MField { vis: 2, type_: t, flags, hint: None, attributes, defaults }));
    let depth = ch.pick(3);
    check(&pl, c, &w("field [private] a Int32", k), depth, cx)
}

fn enums(ch: &mut Chooser, max: usize, cx: &mut Cx) -> Result<(), Fail> {
    let vals = [0i64, 1, -1, 255, 65536, i64::from(i32::MAX), 1 << 31, i64::from(i32::MIN), i64::MAX, i64::MIN];
    let mut pl = Pl::new();
    let e = pl.add("x", 0, MVal::EnumValue(0));
    let n = ch.pick(max + 2);
    let n = if n == max + 1 { 300 } else { n };
    let mut members = vec![];
    let mut k = vec![];
    for i in 0..n {
        let v = if n > max { i as i64 * 3 - 7 } else { *ch.of(&vals) };
        let name = format!("M_{i}");
        members.push(pl.add(&name, e, MVal::EnumValue(v)));
        k.push(w(format!("value {name} {v}"), vec![]));
    }
    if n > 1 && ch.flag() {
        members.reverse();
        k.reverse();
    }
    let (flags, size, unk1) = (*ch.of(&[0u8, 1, 255]), *ch.of(&[1u8, 4, 8]), ch.flag());
    pl.put(e, "En", 0, MVal::Enum { flags, size, members, unk1 });
    check(&pl, e, &w("enum [] En", k), 0, cx)
}

/// every member of a class is shown once, in order, with its own body
fn members(ch: &mut Chooser, max: usize, cx: &mut Cx) -> Result<(), Fail> {
    let mut pl = Pl::new();
    let t = [pl.add("Int32", 0, MVal::Type(MType::Prim)), pl.add("A", 0, MVal::Type(MType::Class))];
    let c = pl.add("tmp", 0, MVal::EnumValue(0));
    let vis = ch.pick(3) as u8;
    let mut cl = class(vis, *ch.of(&[0, cf::STRUCT, cf::NATIVE]), 0);
    let mut fields = vec![];
    let mut funs = vec![];
    for i in 0..ch.pick(max + 1) {
        if ch.flag() {
            let ty = ch.pick(2);
            let vis = ch.pick(3) as u8;
            let flags = *ch.of(&[0, fdf::PERSISTENT]);
            let attributes = if ch.flag() { vec![("k".into(), i.to_string())] } else { vec![] };
            let name = format!("m{i}");
            let k = attributes.iter().map(|(a, b): &(String, String)| w(format!("property {a:?} {b:?}"), vec![])).collect();
            let f = pl.add(&name, c, MVal::Field(MField { vis, type_: t[ty], flags, hint: None, attributes, defaults: vec![] }));
            cl.fields.push(f);
            fields.push(w(format!("field [{}] {name} {}", field_mods(vis, flags), ["Int32", "A"][ty]), k));
        } else {
            let name = format!("f{};Int32", if ch.flag() { 0 } else { i });
            let mut f = MFun::empty();
            f.vis = ch.pick(3) as u8;
            f.flags = *ch.of(&[0, ff::STATIC | ff::FINAL, ff::NATIVE]);
            let p = pl.add("p", c, MVal::Param { type_: t[0], flags: 0 });
            f.params = vec![p];
            let mut k = vec![w("param [] p Int32", vec![])];
            if f.flags & ff::NATIVE == 0 {
                f.flags |= ff::BODY;
                // return i;
                f.code = vec![MInstr::ints(39, &[]), MInstr::ints(4, &[i as i64])];
                f.ret = Some((t[0], false));
                k.push(w("seq", vec![w("return", vec![w(format!("i32 {i}"), vec![])])]));
            } else {
                k.push(w("no body", vec![]));
            }
            let head =
                format!("func [{}] {} {}", fun_mods(f.vis, f.flags), name.split(';').next().unwrap(), if f.ret.is_some() { "Int32" } else { "Void" });
            f.flags |= ff::PARAMS;
            cl.functions.push(pl.add(&name, c, MVal::Function(f)));
            funs.push(w(head, k));
        }
    }
    if ch.flag() {
        cl.fields.reverse();
        fields.reverse();
        cl.functions.reverse();
        funs.reverse();
    }
    // overrides are no members
    cl.overrides.clone_from(&cl.functions);
    let head = class_head(vis, cl.flags, "C", "");
    pl.put(c, "C", 0, MVal::Class(cl));
    fields.extend(funs);
    check(&pl, c, &w(head, fields), 0, cx)
}

/// the listing of a body: locals, then every instruction at its position
fn listing(ch: &mut Chooser, max: usize, cx: &mut Cx) -> Result<(), Fail> {
    let mut pl = Pl::new();
    let t = pl.add("Int32", 0, MVal::Type(MType::Prim));
    let reps = ops::representatives();
    let n = ch.pick(max + 1);
    let mut code: Vec<MInstr> = vec![];
    for i in 0..n {
        if i == 0 || i + 1 < n || max < 3 {
            code.push(ch.of(&reps).clone());
        } else {
            code.push(reps[i * 7 % reps.len()].clone());
        }
    }
    let mut f = MFun::empty();
    f.flags = ff::BODY | ff::LOCALS;
    let mut want = vec![];
    for i in 0..ch.pick(3) {
        let flags = ch.pick(2) as u8;
        let name = format!("l{i}");
        f.locals.push(pl.add(&name, 0, MVal::Local { type_: t, flags }));
        want.push(format!("{} {name}: Int32;", if flags == 1 { "const" } else { "let" }));
    }
    f.code.clone_from(&code);
    let mut at = 0;
    for i in &code {
        want.push(format!("{at}: {}", format!("{:?}", ops::build(i)).to_lowercase()));
        at += i.vm_size();
    }
    let depth = ch.pick(2);
    let c = pl.add("fun", 0, MVal::Function(f));
    let text = pl.print(c, OutputMode::Bytecode, depth)?;
    cx.step();
    cx.state();
    cx.trace();
    cx.sample(|| format!("{text:?}"));
    let Some(b) = crate::c13::body(&text) else { return fail("no body", text) };
    let lines: Vec<&str> = b.lines().filter(|l| !l.trim().is_empty()).collect();
    let pad = " ".repeat(2 * (depth + 1));
    let want: Vec<String> = want.into_iter().map(|l| pad.clone() + &l).collect();
    if lines != want {
        return fail(ops::show_code(&code), format!("listed as {lines:?}, not {want:?}"));
    }
    Ok(())
}

/// the tree dump of a body is the debug form of each decompiled statement
fn dump(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let mut pl = Pl::new();
    let l = pl.add("a", 0, MVal::EnumValue(0));
    let mut code = vec![];
    for _ in 0..ch.pick(4) {
        match ch.pick(3) {
            0 => code.extend([MInstr::ints(22, &[]), MInstr::ints(24, &[i64::from(l)]), MInstr::ints(4, &[7])]),
            1 => code.extend([MInstr::ints(39, &[]), MInstr::ints(24, &[i64::from(l)])]),
            _ => code.push(MInstr::ints(0, &[])),
        }
    }
    let mut f = MFun::empty();
    f.flags = ff::BODY;
    f.code.clone_from(&code);
    let c = pl.add("fun", 0, MVal::Function(f));
    let depth = ch.pick(2);
    let text = pl.print(c, OutputMode::SyntaxTree, depth)?;
    let fun = pl.pool.function(PoolIndex::new(c)).expect("harness: function");
    let def = pl.pool.definition(PoolIndex::<Definition>::new(c)).expect("harness: definition");
    let tree = match Decompiler::decompiled(fun, def, &pl.pool) {
        Ok(t) => t,
        Err(e) => return fail("error", e.to_string()),
    };
    let _ = meaning(&w_seq(&tree), false);
    let mut want = String::new();
    for e in &tree.exprs {
        want += &format!("{}{e:#?}\n", " ".repeat(2 * (depth + 1)));
    }
    cx.step();
    cx.state();
    cx.trace();
    cx.sample(|| format!("{text:?}"));
    if !text.contains(&format!(" {{\n{want}{}}}\n", " ".repeat(2 * depth))) {
        return fail(ops::show_code(&code), format!("dumped as {text}, not {want}"));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let k = usize::from(ctx.thorough());
    ctx.explore("class flags", class_flags);
    ctx.explore("function flags", |ch, cx| fun_flags(ch, k == 1, cx));
    ctx.explore("field flags", field_flags);
    ctx.explore("types", |ch, cx| types(ch, 4 + k, cx));
    ctx.explore("parameters", |ch, cx| parameters(ch, 4 + k, cx));
    ctx.explore("properties", properties);
    ctx.explore("enums", |ch, cx| enums(ch, 3 + k, cx));
    ctx.explore("members", |ch, cx| members(ch, 2 + k, cx));
    ctx.explore("listings", |ch, cx| listing(ch, 2 + k, cx));
    ctx.explore("dumps", dump);
}
