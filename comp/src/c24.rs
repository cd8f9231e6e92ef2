//! C24: what is in the pool after a compilation says what the declarations say.
use std::path::PathBuf;

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::definition::{AnyDefinition, Definition, Type, Visibility};
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::{CompilationOutput, CompilationUnit};

use crate::base;
use crate::c22::{compare, key};
use crate::lang::*;
use crate::util::{fail, Chooser, Ctx, Cx, Fail};
use crate::wf;

// ---------------------------------------------------------------- what is there

fn type_name(pool: &ConstantPool, i: PoolIndex<Type>) -> String {
    match pool.definition(i.cast::<Definition>()).map(|d| &d.value) {
        Ok(AnyDefinition::Type(t)) => match t {
            Type::Ref(t) => format!("ref<{}>", type_name(pool, *t)),
            Type::WeakRef(t) => format!("wref<{}>", type_name(pool, *t)),
            Type::Array(t) => format!("array<{}>", type_name(pool, *t)),
            Type::ScriptRef(t) => format!("script_ref<{}>", type_name(pool, *t)),
            Type::StaticArray(t, n) => format!("array<{}, {n}>", type_name(pool, *t)),
            Type::Prim | Type::Class => pool.def_name(i).map(|n| n.to_string()).unwrap_or("?".into()),
        },
        _ => "no type".into(),
    }
}

fn vis(v: Visibility) -> &'static str {
    match v {
        Visibility::Public => "public",
        Visibility::Protected => "protected",
        Visibility::Private => "private",
    }
}

fn words(ws: &[(bool, &str)]) -> String {
    ws.iter().filter(|(b, _)| *b).map(|(_, w)| format!(" {w}")).collect()
}

/// a function, with everything that its declaration says
fn function(pool: &ConstantPool, i: PoolIndex<redscript::definition::Function>) -> String {
    let f = pool.function(i).unwrap();
    let ps: Vec<String> = f
        .parameters
        .iter()
        .map(|p| {
            let x = pool.parameter(*p).unwrap();
            format!(
                "{}{}: {}",
                words(&[(x.flags.is_out(), "out"), (x.flags.is_optional(), "opt"), (x.flags.is_const(), "const")]).trim_start().to_owned() + " ",
                pool.def_name(*p).unwrap(),
                type_name(pool, x.type_)
            )
            .trim_start()
            .to_owned()
        })
        .collect();
    let g = f.flags;
    format!(
        "{}{} func {}({}) -> {}",
        vis(f.visibility),
        words(&[
            (g.is_static(), "static"),
            (g.is_final(), "final"),
            (g.is_native(), "native"),
            (g.is_callback(), "cb"),
            (g.is_exec(), "exec"),
            (g.is_quest(), "quest"),
            (g.is_const(), "const"),
        ]),
        pool.def_name(i).unwrap(),
        ps.join(", "),
        f.return_type.map_or("nothing".into(), |t| type_name(pool, t))
    )
}

fn field(pool: &ConstantPool, i: PoolIndex<redscript::definition::Field>) -> String {
    let f = pool.field(i).unwrap();
    let g = f.flags;
    let mut o = format!(
        "{}{} let {}: {}",
        vis(f.visibility),
        words(&[(g.is_const(), "const"), (g.is_native(), "native"), (g.is_persistent(), "persistent")]),
        pool.def_name(i).unwrap(),
        type_name(pool, f.type_)
    );
    for p in &f.attributes {
        o.push_str(&format!(" {{{} = {}}}", p.name, p.value));
    }
    for p in &f.defaults {
        o.push_str(&format!(" in {} = {}", p.name, p.value));
    }
    o
}

fn class(pool: &ConstantPool, i: PoolIndex<redscript::definition::Class>) -> Vec<String> {
    let c = pool.class(i).unwrap();
    let g = c.flags;
    let base = if c.base.is_undefined() { "nothing".into() } else { pool.def_name(c.base).unwrap().to_string() };
    let mut out = vec![format!(
        "{}{} {} extends {base}",
        vis(c.visibility),
        words(&[
            (g.is_abstract(), "abstract"),
            (g.is_final(), "final"),
            (g.is_native(), "native"),
            (g.is_import_only(), "importonly"),
            (g.is_struct(), "struct"),
            (!g.is_struct(), "class"),
        ]),
        pool.def_name(i).unwrap(),
    )];
    out.extend(c.fields.iter().map(|f| field(pool, *f)));
    out.extend(c.functions.iter().map(|f| function(pool, *f)));
    out
}

fn enumeration(pool: &ConstantPool, i: PoolIndex<redscript::definition::Enum>) -> String {
    let e = pool.enum_(i).unwrap();
    let ms: Vec<String> = e
        .members
        .iter()
        .map(|m| format!("{} = {}", pool.def_name(*m).unwrap(), pool.enum_value(*m).unwrap()))
        .collect();
    format!("enum {} {{ {} }}", pool.def_name(i).unwrap(), ms.join(", "))
}

/// everything that came in after the first `skip` definitions, by kind
fn everything(pool: &ConstantPool, skip: usize) -> Vec<String> {
    let mut out = vec![];
    for (i, d) in pool.definitions() {
        if (u32::from(i) as usize) < skip {
            continue;
        }
        match &d.value {
            AnyDefinition::Class(_) => out.extend(class(pool, i.cast())),
            AnyDefinition::Enum(_) => out.push(enumeration(pool, i.cast())),
            AnyDefinition::Function(_) if d.parent.is_undefined() => out.push(function(pool, i.cast())),
            _ => {}
        }
    }
    out
}

fn count(pool: &ConstantPool) -> usize {
    pool.definitions().map(|(i, _)| u32::from(i) as usize + 1).max().unwrap_or(0)
}

// ---------------------------------------------------------------- declarations one at a time

const CONTEXT: &str = "public class Base {} public class K {} public struct S { public let x: Int32; } enum En { a = 0, b = 7, }\n";

/// compiles declarations after the context; the pool holds exactly what is expected, or they are refused
fn declared(text: &str, want: Option<Vec<String>>, cx: &mut Cx) -> Result<(), Fail> {
    cx.case(|| text.to_owned());
    cx.state();
    let mut pool = base::pool();
    let out = base::compile(&mut pool, &[CONTEXT]).unwrap();
    assert!(base::fatal(out.diagnostics()).is_none(), "harness: context");
    let skip = count(&pool);
    let res = base::compile(&mut pool, &[text]).and_then(|o| base::fatal(o.diagnostics()).map_or(Ok(()), Err));
    cx.step();
    match (res, want) {
        (Ok(()), Some(want)) => {
            if let Err(m) = wf::check(&pool, false) {
                return fail(key(text), format!("{text}\nleaves a pool that is not well-formed: {m}"));
            }
            let got = everything(&pool, skip);
            if got != want {
                return fail(key(text), format!("{text}\nshould give {want:#?}\nbut gives {got:#?}"));
            }
            cx.trace();
            cx.sample(|| text.to_owned());
            Ok(())
        }
        (Err(_), None) => {
            cx.trace();
            Ok(())
        }
        (Ok(()), None) => fail(key(text), format!("{text}\nshould be refused, but is accepted")),
        (Err(e), Some(_)) => fail(key(text), format!("{text}\nis refused: {e}")),
    }
}

const VIS: [&str; 4] = ["", "private ", "protected ", "public "];

fn or(v: &str, default: &'static str) -> String {
    if v.is_empty() {
        default.into()
    } else {
        v.trim().into()
    }
}

/// some of the words, in this order or the other
fn some(ch: &mut Chooser, ws: &[&'static str]) -> Vec<&'static str> {
    let mut out = vec![];
    for w in ws {
        if ch.flag() {
            out.push(*w);
        }
    }
    if out.len() > 1 && ch.flag() {
        out.reverse();
    }
    out
}

fn sp(ws: &[&str]) -> String {
    ws.iter().map(|w| format!("{w} ")).collect()
}

fn classes(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let v = *ch.of(&VIS);
    let quals = some(ch, &["abstract", "final", "native", "importonly"]);
    let is_struct = ch.flag();
    let base = if is_struct { None } else { *ch.of(&[None, Some("Base"), Some("IScriptable")]) };
    let n = ch.pick(3);
    let has = |w: &str| quals.contains(&w);
    let front = ch.flag();
    let q = if front { format!("{v}{}", sp(&quals)) } else { format!("{}{v}", sp(&quals)) };
    let mut text = format!("{q}{} X ", if is_struct { "struct" } else { "class" });
    if let Some(x) = base {
        text.push_str(&format!("extends {x} "));
    }
    text.push_str("{ ");
    let cv = or(v, "private");
    let mut want = vec![format!(
        "{cv}{} X extends {}",
        words(&[
            (has("abstract") && !is_struct, "abstract"),
            (has("final"), "final"),
            (has("native") || has("importonly"), "native"),
            (has("importonly"), "importonly"),
            (is_struct, "struct"),
            (!is_struct, "class"),
        ]),
        if is_struct { "nothing" } else { base.unwrap_or("IScriptable") }
    )];
    for i in 0..n {
        text.push_str(&format!("public let f{i}: Int32; public static func m{i}() {{}} "));
        want.insert(1 + i, format!("public let f{i}: Int32"));
        want.push(format!("public static func m{i};() -> nothing"));
    }
    text.push('}');
    declared(&text, Some(want), cx)
}

/// where a function stands
const PLACES: [&str; 8] = [
    "",
    "public class",
    "class",
    "public native class",
    "public abstract class",
    "public abstract native class",
    "public struct",
    "public native struct",
];

fn functions(ch: &mut Chooser, cx: &mut Cx, ordered: bool) -> Result<(), Fail> {
    let place = *ch.of(&PLACES);
    let v = *ch.of(&VIS);
    let words_ = ["static", "final", "native", "cb", "exec", "quest", "const"];
    let mut quals = vec![];
    for w in words_ {
        if ch.flag() {
            quals.push(w);
        }
    }
    if ordered && ch.flag() {
        quals.reverse();
    }
    let has = |w: &str| quals.contains(&w);
    let ret = ch.flag();
    let param = ch.flag();
    let body = ch.pick(if ret { 3 } else { 2 });
    let q = if ch.flag() { format!("{v}{}", sp(&quals)) } else { format!("{}{v}", sp(&quals)) };
    let mut f = format!("{q}func F({})", if param { "a: Int32" } else { "" });
    if ret {
        f.push_str(" -> Int32");
    }
    f.push_str(match (body, ret) {
        (0, _) => ";",
        (1, true) => " { return 1; }",
        (1, false) => " {}",
        _ => " = 1",
    });
    let (in_native, in_abstract, in_struct) = (place.contains("native"), place.contains("abstract"), place.contains("struct"));
    let global = place.is_empty();
    let bad = (has("native") && !global && !in_native)
        || (!has("native") && !in_abstract && body == 0)
        || (has("native") && body != 0)
        || (in_struct && !has("static"));
    let cv = if place.starts_with("public") { "public" } else { "private" };
    let name = if has("native") || has("cb") || has("exec") {
        "F".to_owned()
    } else {
        format!("F;{}", if param { "Int32" } else { "" })
    };
    let mut line = format!(
        "{}{} func {name}({}) -> {}",
        or(v, if global { "private" } else { cv }),
        words(&[
            (has("static") || global, "static"),
            (has("final"), "final"),
            (has("native"), "native"),
            (has("cb"), "cb"),
            (has("exec"), "exec"),
            (has("quest"), "quest"),
            (has("const"), "const"),
        ]),
        if param { "a: Int32" } else { "" },
        if ret { "Int32" } else { "nothing" }
    );
    let (text, want) = if global {
        (f, vec![std::mem::take(&mut line)])
    } else {
        let s = in_struct;
        (
            format!("{place} X {{ {f} }}"),
            vec![
                format!(
                    "{cv}{} X extends {}",
                    words(&[(in_abstract, "abstract"), (in_native, "native"), (s, "struct"), (!s, "class")]),
                    if s { "nothing" } else { "IScriptable" }
                ),
                line,
            ],
        )
    };
    declared(&text, if bad { None } else { Some(want) }, cx)
}

/// types, and how they are named in the names of functions
const TYPES: [(&str, &str); 13] = [
    ("Int32", "Int32"),
    ("String", "String"),
    ("ref<K>", "K"),
    ("wref<K>", "K"),
    ("S", "S"),
    ("En", "En"),
    ("array<Int32>", "array<Int32>"),
    ("array<ref<K>>", "array<K>"),
    ("array<wref<X>>", "array<X>"),
    ("script_ref<String>", "script_ref<String>"),
    ("array<array<En>>", "array<array<En>>"),
    ("Variant", "Variant"),
    ("array<script_ref<S>>", "array<script_ref<S>>"),
];

fn signatures(ch: &mut Chooser, cx: &mut Cx, params: usize, rets: usize) -> Result<(), Fail> {
    let n = params;
    let mut ps = vec![];
    let mut shown = vec![];
    let mut mangled = String::new();
    for i in 0..n {
        let (t, m) = *ch.of(&TYPES);
        let ws = some(ch, &["out", "opt", "const"]);
        ps.push(format!("{}p{i}: {t}", sp(&ws)));
        let mut sorted = ws.clone();
        sorted.sort_by_key(|w| ["out", "opt", "const"].iter().position(|x| x == w));
        shown.push(format!("{}p{i}: {t}", sp(&sorted)));
        mangled.push_str(m);
    }
    let r = if rets == 0 {
        None
    } else {
        let k = ch.pick(rets.min(TYPES.len() + 2));
        [None, Some("Void")].get(k).copied().unwrap_or_else(|| Some(TYPES[k - 2].0))
    };
    let place = ch.pick(3);
    let mut f = format!("public {}func F({})", ["", "final ", "native "][place], ps.join(", "));
    if let Some(r) = r {
        f.push_str(&format!(" -> {r}"));
    }
    f.push(';');
    let line = format!(
        "public{} func {}({}) -> {}",
        ["", " final", " static native"][place],
        if place == 2 { "F".to_owned() } else { format!("F;{mangled}") },
        shown.join(", "),
        r.filter(|r| *r != "Void").unwrap_or("nothing")
    );
    let cl = "public abstract class X extends IScriptable".to_owned();
    match place {
        2 => declared(&format!("public abstract class X {{}} {f}"), Some(vec![cl, line]), cx),
        _ => declared(&format!("public abstract class X {{ {f} }}"), Some(vec![cl, line]), cx),
    }
}

fn fields(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let place = *ch.of(&["public class", "class", "public native class", "public struct"]);
    let v = *ch.of(&VIS);
    let quals = some(ch, &["const", "native", "persistent"]);
    let (t, _) = *ch.of(&TYPES);
    let props = ch.pick(3);
    let has = |w: &str| quals.contains(&w);
    let mut f = String::new();
    let mut tail = String::new();
    for i in 0..props {
        f.push_str(&format!("@runtimeProperty(\"k{i}\", \"v \\\"{i}\") "));
        tail.push_str(&format!(" {{k{i} = v \"{i}}}"));
    }
    f.push_str(&format!("{v}{}let f: {t};", sp(&quals)));
    let (native, is_struct) = (place.contains("native"), place.contains("struct"));
    let cv = if place.starts_with("public") { "public" } else { "private" };
    let bad = (has("native") && !native) || (has("persistent") && (t.contains("String") || t.contains("Variant")));
    let want = vec![
        format!(
            "{cv}{} X extends {}",
            words(&[(native, "native"), (is_struct, "struct"), (!is_struct, "class")]),
            if is_struct { "nothing" } else { "IScriptable" }
        ),
        format!(
            "{}{} let f: {t}{tail}",
            or(v, cv),
            words(&[(has("const"), "const"), (has("native"), "native"), (has("persistent"), "persistent")])
        ),
    ];
    declared(&format!("{place} X {{ {f} }}"), if bad { None } else { Some(want) }, cx)
}

/// literals, the type they have, and what is kept of them
const LITERALS: [(&str, &str, &str); 21] = [
    ("0", "Int32", "0"),
    ("2147483647", "Int32", "2147483647"),
    ("7u", "Uint32", "7"),
    ("4294967295u", "Uint32", "4294967295"),
    ("7l", "Int64", "7"),
    ("9223372036854775807l", "Int64", "9223372036854775807"),
    ("7ul", "Uint64", "7"),
    ("18446744073709551615ul", "Uint64", "18446744073709551615"),
    ("1.5", "Float", "1.5"),
    ("0.1", "Float", "0.1"),
    ("16777216.0", "Float", "16777216"),
    ("2.5d", "Double", "2.5"),
    ("0.1d", "Double", "0.1"),
    ("true", "Bool", "true"),
    ("false", "Bool", "false"),
    ("\"\"", "String", ""),
    ("\"a \\\"b\\\\\"", "String", "a \"b\\"),
    ("n\"name\"", "CName", "name"),
    ("t\"A.b\"", "TweakDBID", "A.b"),
    ("En.b", "En", "En.b"),
    ("null", "ref<K>", "null"),
];

/// where a value of the first type can stand for one of the second
const WIDER: [(&str, &str); 6] = [
    ("ref<K>", "wref<K>"),
    ("Int32", "Int64"),
    ("Int32", "Float"),
    ("Int32", "Double"),
    ("Uint32", "Uint64"),
    ("Float", "Double"),
];

fn defaults(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let k = ch.pick(LITERALS.len() + 4);
    let (text, ty, kept) = if k < LITERALS.len() {
        LITERALS[k]
    } else {
        [("1 + 1", "Int32", ""), ("new K()", "ref<K>", ""), ("En.zzz", "En", ""), ("[1]", "array<Int32>", "")][k - LITERALS.len()]
    };
    let types: Vec<&str> = {
        let mut v: Vec<&str> = LITERALS.iter().map(|l| l.1).chain(["wref<K>", "array<Int32>"]).collect();
        v.dedup();
        v
    };
    let t = *ch.of(&types);
    let two = ch.flag();
    let fits = k < LITERALS.len() && (t == ty || WIDER.contains(&(ty, t)));
    let mut body = format!("public let f: {t} = {text};");
    let mut want = vec!["public class X extends IScriptable".to_owned(), format!("public let f: {t} in X = {kept}")];
    if two {
        body = format!("public let g: Int32 = 3; {body} public let h: Int32;");
        want.insert(1, "public let g: Int32 in X = 3".into());
        want.push("public let h: Int32".into());
    }
    declared(&format!("public class X {{ {body} }}"), fits.then_some(want), cx)
}

fn enums(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let v = *ch.of(&VIS);
    let n = ch.pick(5);
    let vals = ["0", "1", "7", "-1", "2147483647", "-2147483648", "2147483648l", "-9223372036854775808l"];
    let ms: Vec<String> = (0..n).map(|i| format!("m{i} = {}", ch.of(&vals[..if n == 4 { 4 } else { 8 }]))).collect();
    let comma = n > 0 && ch.flag();
    let text = format!("{v}enum X {{ {}{} }}", ms.join(", "), if comma { "," } else { "" });
    let shown: Vec<String> = ms.iter().map(|m| m.trim_end_matches('l').to_owned()).collect();
    declared(&text, Some(vec![format!("enum X {{ {} }}", shown.join(", "))]), cx)
}

// ---------------------------------------------------------------- classes in any order

const KS: [&str; 8] = ["K0", "K1", "K2", "K3", "K4", "K5", "K6", "K7"];

/// all forests over n classes: the parent of each, n for none
fn forests(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur = vec![0; n];
    loop {
        let ok = (0..n).all(|i| {
            let (mut x, mut steps) = (i, 0);
            while x < n && steps <= n {
                x = cur[x];
                steps += 1;
            }
            x == n
        });
        if ok {
            out.push(cur.clone());
        }
        let mut i = 0;
        while i < n {
            cur[i] += 1;
            if cur[i] <= n {
                break;
            }
            cur[i] = 0;
            i += 1;
        }
        if i == n {
            return out;
        }
    }
}

fn compile_files(pool: &mut ConstantPool, files: &Files) -> Result<CompilationOutput, String> {
    let out = CompilationUnit::new_with_defaults(pool)
        .map_err(|e| e.to_string())?
        .compile_files(files)
        .map_err(|e| e.to_string())?;
    match base::fatal(out.diagnostics()) {
        None => Ok(out),
        Some(d) => Err(d),
    }
}

/// every source reference names the definition that begins at its position
fn refs(pool: &ConstantPool, out: &CompilationOutput, texts: &[String], want: &[(usize, String)]) -> Result<(), String> {
    let mut got: Vec<(usize, String)> = out
        .source_refs()
        .iter()
        .map(|r| {
            let d = pool.definition(r.index()).unwrap();
            let name = pool.names.get(d.name).map(|n| n.split(';').next().unwrap().to_owned()).unwrap_or_default();
            let kind = match &d.value {
                AnyDefinition::Class(_) => "class",
                AnyDefinition::Function(_) => "func",
                AnyDefinition::Field(_) => "let",
                AnyDefinition::Enum(_) => "enum",
                _ => "?",
            };
            (usize::from(r.pos()), format!("{kind} {name}"))
        })
        .collect();
    got.sort();
    let mut want = want.to_vec();
    want.sort();
    if got != want {
        return Err(format!("{texts:?}\nsource references should be {want:?}\nbut are {got:?}"));
    }
    Ok(())
}

/// a forest of classes, in one or two files, in one or two rounds
fn forest(parents: &[usize], over: u32, cut: Option<(usize, bool)>, run: bool, cx: &mut Cx) -> Result<(), Fail> {
    let n = parents.len();
    let method = |i: usize| {
        let call = E::Call("T", vec![lit(10 + i as i32)]);
        let mut body = vec![St::Ex(call)];
        if parents[i] < n {
            body.push(St::Return(Some(E::Bin("+", b(E::Super("M", vec![])), b(lit(1))))));
        } else {
            body.push(St::Return(Some(lit(100 * i as i32))));
        }
        Func { key: "M", quals: "public ", ret: Some(Ty::I32), body, ..Func::default() }
    };
    let mut prog = Prog::default();
    for i in 0..n {
        let root = parents[i] == n;
        let mut methods = vec![];
        if root || over >> i & 1 == 1 {
            methods.push(method(i));
        }
        if run {
            methods.push(Func {
                key: ["G0", "G1", "G2", "G3", "G4", "G5", "G6", "G7"][i],
                quals: "public ",
                ret: Some(Ty::I32),
                body: vec![St::Return(Some(E::Field(b(E::This), FS[i])))],
                ..Func::default()
            });
        }
        prog.classes.push(Class {
            name: KS[i],
            base: (!root).then(|| KS[parents[i]]),
            fields: vec![(FS[i], Ty::I32, Val::Int(0))],
            methods,
            ..Class::default()
        });
    }
    let mut body = vec![];
    for i in 0..n {
        let mut chain = vec![i];
        while parents[*chain.last().unwrap()] < n {
            chain.push(parents[*chain.last().unwrap()]);
        }
        let root = *chain.last().unwrap();
        let o: &'static str = ["o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7"][i];
        body.push(St::Let(o, None, Some(E::New(KS[i])), Val::Unit));
        for c in &chain {
            body.push(St::Ex(E::Assign(b(E::Field(b(E::Var(o)), FS[*c])), b(lit(10 * i as i32 + *c as i32)))));
        }
        body.push(St::Ex(E::Call("T", vec![E::Call("Ask", vec![E::Var(o)])])));
        for c in &chain {
            let g: &'static str = ["G0", "G1", "G2", "G3", "G4", "G5", "G6", "G7"][*c];
            body.push(St::Ex(E::Call("T", vec![E::Method(b(E::Var(o)), g, vec![])])));
        }
        for j in 0..n {
            if j != i && chain.contains(&root) {
                let mut up = j;
                while parents[up] < n {
                    up = parents[up];
                }
                if up == root {
                    let x = E::Cast(b(E::Call(AS[root], vec![E::Var(o)])), KS[j]);
                    body.push(St::Ex(E::Call("TB", vec![E::Intr("IsDefined", None, vec![x], Val::Unit)])));
                }
            }
        }
    }
    // what asks an object is one overload for each root
    for i in 0..n {
        if parents[i] == n {
            let key: &'static str = ["Ask#0", "Ask#1", "Ask#2", "Ask#3", "Ask#4", "Ask#5", "Ask#6", "Ask#7"][i];
            prog.funcs.push(Func {
                key,
                quals: "public ",
                params: vec![par("p", Ty::Ref(KS[i]))],
                ret: Some(Ty::I32),
                body: vec![St::Return(Some(E::Method(b(E::Var("p")), "M", vec![])))],
                ..Func::default()
            });
            prog.funcs.push(Func {
                key: AS[i],
                quals: "public ",
                params: vec![par("p", Ty::Ref(KS[i]))],
                ret: Some(Ty::Ref(KS[i])),
                body: vec![St::Return(Some(E::Var("p")))],
                ..Func::default()
            });
        }
    }
    for st in &mut body {
        if let St::Ex(E::Call("T", args)) = st {
            if let E::Call(k @ "Ask", a) = &mut args[0] {
                let E::Var(o) = a[0] else { unreachable!() };
                let mut i = o[1..].parse::<usize>().unwrap();
                while parents[i] < n {
                    i = parents[i];
                }
                *k = ["Ask#0", "Ask#1", "Ask#2", "Ask#3", "Ask#4", "Ask#5", "Ask#6", "Ask#7"][i];
            }
        }
    }
    prog.funcs.push(Func { key: "Main", quals: "public ", body, ..Func::default() });
    // the text, with the place of every definition
    let mut rounds: Vec<Vec<String>> = vec![vec![String::new()]];
    let mut wants: Vec<Vec<(usize, String)>> = vec![vec![]];
    let mut low = 0;
    for i in 0..n {
        if let Some((at, round)) = cut {
            if at == i {
                if round {
                    rounds.push(vec![String::new()]);
                    wants.push(vec![]);
                    low = 0;
                } else {
                    low += rounds.last().unwrap().last().unwrap().len() + 1;
                    rounds.last_mut().unwrap().push(String::new());
                }
            }
        }
        let mut t = String::new();
        crate::lang::class(&mut t, &prog.classes[i]);
        let file = rounds.last_mut().unwrap().last_mut().unwrap();
        let at = low + file.len();
        let want = wants.last_mut().unwrap();
        want.push((at, format!("class {}", KS[i])));
        want.push((at + t.find("public let").unwrap(), format!("let {}", FS[i])));
        for (p, _) in t.match_indices("public func ") {
            let name: String = t[p + 12..].chars().take_while(|c| *c != '(').collect();
            want.push((at + p, format!("func {name}")));
        }
        file.push_str(&t);
    }
    if run {
        let file = rounds.last_mut().unwrap().last_mut().unwrap();
        for f in &prog.funcs {
            let mut t = String::new();
            func(&mut t, f);
            wants.last_mut().unwrap().push((low + file.len(), format!("func {}", f.key.split('#').next().unwrap())));
            file.push_str(&t);
        }
    }
    let shown = rounds.iter().map(|r| r.join("-- next file\n")).collect::<Vec<_>>().join("-- next round\n");
    cx.case(|| shown.clone());
    if !run {
        cx.state();
    }
    let mut pool = base::pool();
    for (texts, want) in rounds.iter().zip(&wants) {
        let mut files = Files::new();
        for (k, t) in texts.iter().enumerate() {
            files.add(PathBuf::from(format!("{k}.reds")), t.clone());
        }
        let out = match compile_files(&mut pool, &files) {
            Ok(o) => o,
            Err(e) => return fail(key(&shown), format!("{shown}\nis refused: {e}")),
        };
        cx.step();
        if let Err(m) = wf::check(&pool, true) {
            return fail(key(&shown), format!("{shown}\nleaves a pool that is not well-formed: {m}"));
        }
        if let Err(m) = refs(&pool, &out, texts, want) {
            return fail(key(&shown), m);
        }
    }
    for (i, c) in prog.classes.iter().enumerate() {
        let found: Vec<_> = pool
            .definitions()
            .filter(|(_, d)| matches!(d.value, AnyDefinition::Class(_)) && &*pool.names.get(d.name).unwrap() == c.name)
            .collect();
        let [(at, _)] = found[..] else {
            return fail(key(&shown), format!("{shown}\nthere are {} classes called {}", found.len(), c.name));
        };
        let mut want = vec![
            format!("public class {} extends {}", c.name, c.base.unwrap_or("IScriptable")),
            format!("public let {}: Int32", FS[i]),
        ];
        want.extend(c.methods.iter().map(|m| format!("public func {};() -> Int32", m.key)));
        let got = class(&pool, at.cast());
        if got != want {
            return fail(key(&shown), format!("{shown}\nthe class should be {want:?}\nbut is {got:?}"));
        }
    }
    if run {
        compare(&prog, &shown, &pool, "Main", 0, cx)
    } else {
        cx.trace();
        Ok(())
    }
}

const FS: [&str; 8] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"];
const AS: [&str; 8] = ["As0", "As1", "As2", "As3", "As4", "As5", "As6", "As7"];

// ---------------------------------------------------------------- positions

/// declarations between blanks, comments and letters of several bytes, over files
fn positions(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const GAPS: [&str; 6] = ["", "\n", "\r\n  ", "// é€\n", "/* a\n\u{1F600} */ ", "\n\n\t"];
    let mut texts = vec![String::new()];
    let mut want = vec![];
    let mut funcs = vec![];
    let mut low = 0;
    for i in 0..n {
        if i > 0 && ch.flag() {
            low += texts.last().unwrap().len() + 1;
            texts.push(String::new());
        }
        let gap = *ch.of(&GAPS);
        let gap2 = *ch.of(&GAPS[..5]);
        let kind = ch.pick(4);
        let file = texts.len() - 1;
        let t = texts.last_mut().unwrap();
        t.push_str(gap);
        let at = |t: &String| low + t.len();
        let line = |t: &String| t.matches('\n').count();
        match kind {
            0 => {
                want.push((at(t), format!("class C{i}")));
                t.push_str(&format!("public class C{i} {{ {gap2}"));
                want.push((at(t), format!("let x{i}")));
                t.push_str(&format!("let x{i}: Int32;{gap2}"));
                want.push((at(t), format!("func M{i}")));
                funcs.push((format!("M{i};"), file, line(t)));
                t.push_str(&format!("public func M{i}() {{ {gap2} }} }}"));
            }
            1 => {
                want.push((at(t), format!("func F{i}")));
                funcs.push((format!("F{i};"), file, line(t)));
                t.push_str(&format!("public {gap2} func F{i}({gap2}) {{ }}"));
            }
            2 => {
                want.push((at(t), format!("enum E{i}")));
                t.push_str(&format!("enum {gap2} E{i} {{ {gap2} a = 1 }}"));
            }
            _ => {
                want.push((at(t), format!("func W{i}")));
                funcs.push((format!("W{i};"), file, line(t)));
                t.push_str(&format!("@if(true) {gap2} public func W{i}() -> Int32 = 3"));
            }
        }
        t.push_str(gap2);
        if !t.ends_with(char::is_whitespace) {
            t.push(' ');
        }
    }
    let shown = texts.join("-- next file --");
    cx.case(|| shown.clone());
    cx.state();
    let mut files = Files::new();
    for (k, t) in texts.iter().enumerate() {
        files.add(PathBuf::from(format!("dir/{k}.reds")), t.clone());
    }
    let mut pool = base::pool();
    let out = match compile_files(&mut pool, &files) {
        Ok(o) => o,
        Err(e) => return fail(key(&shown), format!("{shown}\nis refused: {e}")),
    };
    cx.step();
    if let Err(m) = refs(&pool, &out, &texts, &want) {
        return fail(key(&shown), m);
    }
    for (name, file, line) in funcs {
        let f = pool
            .definitions()
            .find(|(_, d)| matches!(d.value, AnyDefinition::Function(_)) && *pool.names.get(d.name).unwrap() == *name)
            .map(|(i, _)| pool.function(i.cast()).unwrap());
        let got = f.and_then(|f| f.source.as_ref()).and_then(|s| match &pool.definition(s.file.cast::<Definition>()).unwrap().value {
            AnyDefinition::SourceFile(f) => Some((f.path.clone(), s.line as usize)),
            _ => None,
        });
        let want = Some((PathBuf::from(format!("dir/{file}.reds")), line));
        if got != want {
            return fail(key(&shown), format!("{shown}\n{name} is said to be in {got:?}, but is in {want:?}"));
        }
    }
    // every position is found again
    let mut low = 0;
    for (k, t) in texts.iter().enumerate() {
        for p in t.char_indices().map(|c| c.0).chain([t.len()]) {
            use redscript::ast::{Pos, Span};
            let pos = Pos::new(low + p);
            let loc = files.lookup(Span::new(pos, pos));
            let line = t[..p].matches('\n').count();
            let col = t[..p].rsplit('\n').next().unwrap().chars().count();
            let want = (PathBuf::from(format!("dir/{k}.reds")), line, col);
            let got = loc.map(|l| (l.file.path().to_owned(), l.start.line, l.start.col));
            if got.as_ref() != Some(&want) {
                return fail(key(&shown), format!("{shown}\nposition {} is at {want:?}, but is said to be at {got:?}", low + p));
            }
        }
        low += t.len() + 1;
    }
    cx.trace();
    cx.sample(|| shown.clone());
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.explore("classes and structures", classes);
    ctx.explore("functions", |ch, cx| functions(ch, cx, ctx.thorough()));
    ctx.explore("signatures of one", |ch, cx| signatures(ch, cx, 1, 100));
    ctx.explore("signatures of two", |ch, cx| signatures(ch, cx, 2, if ctx.thorough() { 4 } else { 1 }));
    ctx.explore("fields", fields);
    ctx.explore("values of fields", defaults);
    ctx.explore("enums", enums);
    ctx.explore("positions of one", |ch, cx| positions(ch, cx, 1));
    ctx.explore("positions of two", |ch, cx| positions(ch, cx, 2));
    let four = forests(4);
    ctx.explore("hierarchies of four, run", |ch, cx| {
        let f = ch.of(&four).clone();
        let over = ch.pick(16) as u32;
        let cut = ch.pick(7);
        let cut = match cut {
            0 => None,
            c => Some((1 + (c - 1) / 2, c % 2 == 0)),
        };
        if let Some((at, true)) = cut {
            // what is in the second round is not known in the first
            if (0..at).any(|i| f[i] < 4 && f[i] >= at) {
                return Ok(());
            }
        }
        forest(&f, over, cut, true, cx)
    });
    for n in [5, 6, 7, 8] {
        if n > 7 && !ctx.thorough() {
            break;
        }
        let all = forests(n);
        ctx.explore(&format!("hierarchies of {n}"), |ch, cx| {
            let f = ch.of(&all).clone();
            forest(&f, 0, None, false, cx)
        });
    }
    let five = forests(5);
    ctx.explore("hierarchies of five in two compilations", |ch, cx| {
        let f = ch.of(&five).clone();
        let at = 1 + ch.pick(4);
        if (0..at).any(|i| f[i] < 5 && f[i] >= at) {
            return Ok(());
        }
        forest(&f, 0, Some((at, true)), false, cx)
    });
}
