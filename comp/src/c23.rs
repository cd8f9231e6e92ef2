//! C23: annotated functions wrap, replace and add what they name, in any order and number.
use std::sync::OnceLock;

use crate::base;
use crate::c22::{compare, key};
use crate::lang::*;
use crate::util::{fail, Chooser, Ctx, Cx, Fail};
use crate::wf;

/// what can be annotated
#[derive(Clone, Copy, PartialEq, Debug)]
enum Target {
    AM,
    BM,
    AMs,
    AS,
    AOut,
    G,
    DM,
    AN,
}
use Target::*;

const TARGETS: [Target; 8] = [AM, BM, AMs, AS, AOut, G, DM, AN];

impl Target {
    fn class(self) -> Option<&'static str> {
        match self {
            AM | AMs | AS | AOut | AN => Some("A"),
            BM => Some("B"),
            DM => Some("D"),
            G => None,
        }
    }
    fn name(self) -> &'static str {
        match self {
            AM | BM | DM => "M",
            AMs => "M#s",
            AS => "S",
            AOut => "Out",
            G => "G",
            AN => "N",
        }
    }
    fn quals(self) -> &'static str {
        if self == AS {
            "public static "
        } else {
            "public "
        }
    }
    fn params(self) -> Vec<Param> {
        match self {
            AMs => vec![par("p", Ty::Str)],
            AOut => vec![Param { out: true, ..par("p", Ty::I32) }],
            _ => vec![par("p", Ty::I32)],
        }
    }
    fn ret(self) -> Option<Ty> {
        match self {
            AMs => Some(Ty::Str),
            AOut => None,
            _ => Some(Ty::I32),
        }
    }
    fn func(self, key: &'static str, body: Vec<St>) -> Func {
        Func { key, quals: self.quals(), params: self.params(), ret: self.ret(), body, ..Func::default() }
    }
    /// what a wrapper calls in the reference: the function that was there before
    fn inner(self, key: &'static str, args: Vec<E>) -> E {
        match self {
            AS => E::Static("A", key, args),
            _ => E::Method(b(E::This), key, args),
        }
    }
}

/// a name for the n-th function that a target goes through
fn inner_key(t: Target, n: usize) -> &'static str {
    static KEYS: OnceLock<Vec<Vec<&'static str>>> = OnceLock::new();
    let keys = KEYS.get_or_init(|| {
        TARGETS
            .iter()
            .map(|t| (0..9).map(|i| &*Box::leak(format!("{}#{t:?}{i}", t.name()).into_boxed_str())).collect())
            .collect()
    });
    keys[TARGETS.iter().position(|x| *x == t).unwrap()][n]
}

fn tr(k: i32) -> St {
    St::Ex(E::Call("T", vec![lit(k)]))
}
fn p() -> E {
    E::Var("p")
}
fn plus(a: E, k: E) -> E {
    E::Bin("+", b(a), b(k))
}
fn ret(e: E) -> St {
    St::Return(Some(e))
}
fn this(f: &'static str) -> E {
    E::Field(b(E::This), f)
}

fn original(t: Target) -> Vec<St> {
    match t {
        AM => vec![St::Let("v", None, Some(plus(p(), lit(1))), Val::Unit), St::Ex(E::Call("T", vec![E::Var("v")])), ret(E::Var("v"))],
        BM => vec![tr(200), ret(E::Bin("*", b(E::Super("M", vec![p()])), b(lit(2))))],
        AMs => vec![ret(E::Bin("+", b(p()), b(string("o"))))],
        AS => vec![tr(300), ret(E::Bin("-", b(p()), b(lit(1))))],
        AOut => vec![St::Ex(E::Assign(b(p()), b(E::Bin("*", b(p()), b(lit(2))))))],
        G => vec![tr(400), ret(E::Bin("*", b(p()), b(lit(3))))],
        DM | AN => unreachable!(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Wrap(usize),
    Replace(usize),
    Add,
}

/// bodies that wrap; `call` is what stands for the wrapped function
fn wrap(t: Target, v: usize, k: i32, field: &'static str, call: &dyn Fn(Vec<E>) -> E) -> Vec<St> {
    match (t, v) {
        (AMs, _) => vec![St::Let("r", None, Some(call(vec![E::Bin("+", b(p()), b(string("w")))])), Val::Unit), ret(E::Bin("+", b(E::Var("r")), b(string("x"))))],
        (AOut, _) => vec![
            St::Ex(E::OpAssign("+", b(p()), b(lit(k)))),
            St::Ex(call(vec![p()])),
            St::Ex(E::OpAssign("+", b(p()), b(lit(3)))),
        ],
        (_, 0) => vec![
            St::Let("r", None, Some(call(vec![plus(p(), lit(k))])), Val::Unit),
            St::Let("q", None, Some(E::Bin("*", b(E::Var("r")), b(lit(2)))), Val::Unit),
            St::Ex(E::Call("T", vec![E::Var("r")])),
            ret(E::Var("q")),
        ],
        (_, 1) => vec![tr(k), ret(lit(50 + k))],
        (_, 2) => vec![ret(E::Bin("-", b(call(vec![p()])), b(call(vec![plus(p(), lit(1))]))))],
        _ => vec![
            St::Ex(E::OpAssign("+", b(this(field)), b(lit(k)))),
            ret(call(vec![plus(this(field), p())])),
        ],
    }
}

fn replace(t: Target, v: usize, k: i32) -> Vec<St> {
    match (t, v) {
        (AMs, _) => vec![ret(E::Bin("+", b(string("r")), b(p())))],
        (AOut, _) => vec![St::Ex(E::Assign(b(p()), b(lit(k))))],
        (G, 1) => vec![ret(E::Method(b(E::New("B")), "M", vec![p()]))],
        (_, 0) => vec![
            St::Let("v", None, Some(E::Bin("*", b(p()), b(lit(k)))), Val::Unit),
            St::Ex(E::Call("T", vec![E::Var("v")])),
            ret(E::Var("v")),
        ],
        // reaches itself again, through everything that wraps it
        _ => vec![
            St::If(
                E::Bin("<", b(this("n")), b(lit(k))),
                vec![
                    St::Ex(E::OpAssign("+", b(this("n")), b(lit(1)))),
                    ret(E::Method(b(E::This), "M", vec![plus(p(), lit(7))])),
                ],
                None,
            ),
            ret(p()),
        ],
    }
}

fn added(t: Target, k: i32) -> Vec<St> {
    match t {
        DM => vec![tr(k), ret(E::Bin("-", b(E::Super("M", vec![p()])), b(lit(k))))],
        _ => vec![tr(k), ret(plus(E::Method(b(E::This), "M", vec![p()]), lit(k)))],
    }
}

/// a target as it is at some point: its functions, outermost last
#[derive(Clone, Default)]
struct Chain {
    funcs: Vec<Func>,
}

fn base_prog() -> Prog {
    let two = Func {
        key: "Two",
        quals: "public ",
        params: vec![par("p", Ty::I32)],
        ret: Some(Ty::I32),
        body: vec![ret(plus(E::Method(b(E::This), "M", vec![p()]), E::Method(b(E::This), "M", vec![plus(p(), lit(10))])))],
        ..Func::default()
    };
    let f = |t: Target| t.func(t.name(), original(t));
    Prog {
        classes: vec![
            Class {
                name: "A",
                fields: vec![("n", Ty::I32, Val::Int(0))],
                methods: vec![f(AM), f(AMs), f(AS), f(AOut), two],
                ..Class::default()
            },
            Class { name: "B", base: Some("A"), methods: vec![f(BM)], ..Class::default() },
            Class { name: "D", base: Some("B"), ..Class::default() },
        ],
        funcs: vec![f(G)],
    }
}

fn main_fn(new: bool, field: bool) -> Func {
    let t = |e: E| St::Ex(E::Call("T", vec![e]));
    let m = |o: &'static str, n: &'static str, a: E| E::Method(b(E::Var(o)), n, vec![a]);
    let mut body = vec![
        St::Let("a", None, Some(E::New("A")), Val::Unit),
        St::Let("b", Some(Ty::Ref("A")), Some(E::New("B")), Val::Unit),
        St::Let("d", None, Some(E::New("D")), Val::Unit),
        St::Let("o", None, Some(lit(7)), Val::Unit),
        t(m("a", "M", lit(1))),
        t(m("b", "M", lit(2))),
        t(m("d", "M", lit(3))),
        t(m("a", "Two", lit(4))),
        t(m("d", "Two", lit(5))),
        t(E::Static("A", "S", vec![lit(6)])),
        St::Ex(m("a", "Out", E::Var("o"))),
        t(E::Var("o")),
        t(E::Call("G", vec![lit(8)])),
        St::Ex(E::Call("TS", vec![m("d", "M#s", string("s"))])),
        t(E::Field(b(E::Var("a")), "n")),
        t(E::Field(b(E::Var("d")), "n")),
    ];
    if new {
        body.push(t(m("a", "N", lit(9))));
        body.push(t(m("d", "N", lit(9))));
    }
    if field {
        body.push(t(E::Field(b(E::Var("a")), "f")));
    }
    Func { key: "Main", quals: "public ", body, ..Func::default() }
}

fn annotated(kind: Kind, t: Target, f: &Func) -> String {
    let ann = match (kind, t.class()) {
        (Kind::Wrap(_), Some(c)) => format!("@wrapMethod({c}) "),
        (Kind::Replace(_), Some(c)) => format!("@replaceMethod({c}) "),
        (Kind::Replace(_), None) => "@replaceGlobal() ".into(),
        (_, Some(c)) => format!("@addMethod({c}) "),
        _ => unreachable!(),
    };
    let mut o = ann;
    func(&mut o, f);
    o
}

/// everything that can be said in one annotated function
fn choices(added: &[Target], field: bool) -> Vec<(Kind, Target)> {
    let mut out = vec![];
    for t in TARGETS {
        let there = !matches!(t, DM | AN) || added.contains(&t);
        if !there {
            out.push((Kind::Add, t));
            continue;
        }
        if t != G {
            let n = match t {
                AMs | AOut => 1,
                AS | DM | AN => 2,
                _ => 4,
            };
            for v in 0..n {
                // the third stands for the fourth where a field was added
                if v != 2 || !field {
                    out.push((Kind::Wrap(v), t));
                }
            }
        }
        let n = if matches!(t, AM | BM | G) { 2 } else { 1 };
        for v in 0..n {
            out.push((Kind::Replace(v), t));
        }
    }
    out
}

fn histories(ctx: &Ctx, name: &str, steps: usize, breaks: usize) {
    ctx.explore(name, |ch, cx| history(ch, cx, steps, breaks));
}

fn history(ch: &mut Chooser, cx: &mut Cx, steps: usize, breaks: usize) -> Result<(), Fail> {
    let early = ch.flag();
    let field = !early && ch.flag();
    let fname = if field { "f" } else { "n" };
    let mut prog = base_prog();
    let mut text = vec![vec![crate::lang::prog(&prog)]];
    let mut chains: Vec<Chain> = TARGETS
        .iter()
        .map(|t| match t {
            DM | AN => Chain::default(),
            t => Chain { funcs: vec![t.func(t.name(), original(*t))] },
        })
        .collect();
    let mut have = vec![];
    if early {
        let m = main_fn(false, false);
        func(&mut text[0][0], &m);
        prog.funcs.push(m);
    }
    text.push(vec![String::new()]);
    // what the round said so far
    let mut round: Vec<(Kind, Target, i32)> = vec![];
    let mut conflicts = vec![0usize; 1];
    let apply = |round: &mut Vec<(Kind, Target, i32)>, chains: &mut Vec<Chain>| {
        for (i, t) in TARGETS.iter().enumerate() {
            let ch = &mut chains[i];
            for (k, x, n) in round.iter() {
                match k {
                    Kind::Add if x == t => ch.funcs = vec![t.func(t.name(), added(*t, *n))],
                    Kind::Replace(v) if x == t => ch.funcs = vec![t.func(t.name(), replace(*t, *v, *n))],
                    _ => {}
                }
            }
            for (k, x, n) in round.iter() {
                if let (Kind::Wrap(v), true) = (k, x == t) {
                    let at = ch.funcs.len() - 1;
                    let inner = inner_key(*t, at);
                    ch.funcs[at].key = inner;
                    let body = wrap(*t, *v, *n, fname, &|args| t.inner(inner, args));
                    ch.funcs.push(t.func(t.name(), body));
                }
            }
        }
        round.clear();
    };
    let mut replaced: Vec<Target> = vec![];
    let mut total_conflicts = 0;
    for step in 0..steps {
        let all = choices(&have, field);
        let (kind, t) = *ch.of(&all);
        let k = step as i32 + 2;
        let f = match kind {
            Kind::Wrap(v) => t.func(t.name(), wrap(t, v, k, fname, &|args| E::Call("wrappedMethod", args))),
            Kind::Replace(v) => t.func(t.name(), replace(t, v, k)),
            Kind::Add => {
                have.push(t);
                t.func(t.name(), added(t, k))
            }
        };
        if matches!(kind, Kind::Replace(_) | Kind::Add) {
            if replaced.contains(&t) {
                total_conflicts += 1;
            }
            replaced.push(t);
        }
        round.push((kind, t, k));
        text.last_mut().unwrap().last_mut().unwrap().push_str(&annotated(kind, t, &f));
        if step + 1 < steps {
            match ch.pick(breaks) {
                0 => {}
                1 => text.last_mut().unwrap().push(String::new()),
                _ => {
                    apply(&mut round, &mut chains);
                    replaced.clear();
                    conflicts.push(0);
                    text.push(vec![String::new()]);
                }
            }
        }
    }
    apply(&mut round, &mut chains);
    // the field comes in the first round, but is used before it is said
    if field {
        text[1].last_mut().unwrap().push_str("@addField(A) public let f: Int32;\n");
        prog.classes[0].fields.push(("f", Ty::I32, Val::Int(0)));
    }
    if !early {
        let m = main_fn(have.contains(&AN), field);
        let mut o = String::new();
        func(&mut o, &m);
        text.last_mut().unwrap().insert(0, o);
        prog.funcs.push(m);
    }
    // the reference: every chain spelled out
    for (t, chain) in TARGETS.iter().zip(&chains) {
        let list = match t.class() {
            None => &mut prog.funcs,
            Some(c) => &mut prog.classes.iter_mut().find(|x| x.name == c).unwrap().methods,
        };
        list.retain(|f| f.key != t.name());
        list.extend(chain.funcs.iter().cloned());
    }
    let shown = text.iter().map(|r| r.join("-- next file\n")).collect::<Vec<_>>().join("-- next round\n");
    cx.case(|| shown.clone());
    let shown = shown.split_once("-- next round\n").unwrap().1.to_owned();
    let mut pool = base::pool();
    let mut seen = 0;
    let mut before = vec![];
    for (i, files) in text.iter().enumerate() {
        let files: Vec<&str> = files.iter().map(String::as_str).collect();
        let out = match base::compile(&mut pool, &files) {
            Ok(o) => o,
            Err(e) => return fail(key(&shown), format!("{shown}\nis not compiled: {e}")),
        };
        if let Some(d) = base::fatal(out.diagnostics()) {
            return fail(key(&shown), format!("{shown}\nis rejected: {d}"));
        }
        seen += out.diagnostics().iter().filter(|d| format!("{d:?}").starts_with("ReplaceMethodConflict")).count();
        if let Err(m) = wf::check(&pool, false) {
            return fail(key(&shown), format!("{shown}\nleaves a pool that is not well-formed after round {i}: {m}"));
        }
        if i == 0 {
            before = entries(&pool);
        }
    }
    // the functions are still found under their names, with the signatures they had
    let after = entries(&pool);
    for e in &before {
        if after.iter().filter(|x| *x == e).count() != 1 {
            return fail(key(&shown), format!("{shown}\nthere is no longer one {e}\nbut {after:#?}"));
        }
    }
    let _ = conflicts;
    if seen != total_conflicts {
        return fail(key(&shown), format!("{shown}\nshould be warned about {total_conflicts} times, but is {seen} times"));
    }
    compare(&prog, &shown, &pool, "Main", 2, cx)
}

/// the functions of a pool that are not made up by the compiler, with their signatures
fn entries(pool: &redscript::bundle::ConstantPool) -> Vec<String> {
    use redscript::definition::AnyDefinition;
    let name = |i| pool.names.get(i).map(|n| n.to_string()).unwrap_or_default();
    let mut out = vec![];
    for (_, d) in pool.definitions() {
        let AnyDefinition::Class(c) = &d.value else { continue };
        for f in &c.functions {
            let Ok(fun) = pool.function(*f) else { continue };
            let n = pool.def_name(*f).map(|n| n.to_string()).unwrap_or_default();
            if n.contains('$') {
                continue;
            }
            let ps: Vec<String> = fun
                .parameters
                .iter()
                .map(|p| {
                    let par = pool.parameter(*p).unwrap();
                    let t = pool.def_name(par.type_).map(|n| n.to_string()).unwrap_or_default();
                    format!("{} {t} out={}", pool.def_name(*p).map(|n| n.to_string()).unwrap_or_default(), par.flags.is_out())
                })
                .collect();
            let r = fun.return_type.map(|t| pool.def_name(t).map(|n| n.to_string()).unwrap_or_default());
            let base = fun.base_method.map(|b| {
                let d = pool.definition(b).unwrap();
                format!("{}.{}", pool.def_name(d.parent).map(|n| n.to_string()).unwrap_or_default(), name(d.name))
            });
            out.push(format!(
                "{}.{n}({}) -> {r:?} static={} visibility={:?} callback={} final={} const={} quest={} base={base:?}",
                name(d.name),
                ps.join(", "),
                fun.flags.is_static(),
                fun.visibility,
                fun.flags.is_callback(),
                fun.flags.is_final(),
                fun.flags.is_const(),
                fun.flags.is_quest(),
            ));
        }
    }
    out
}

const QUALS: [&str; 9] = [
    "public ",
    "private ",
    "protected ",
    "public static ",
    "public final ",
    "public cb ",
    "public const ",
    "public quest ",
    "private static final ",
];

/// annotations that name something, and annotations that name nothing
fn naming(ch: &mut Chooser, cx: &mut Cx, two: bool) -> Result<(), Fail> {
    let quals = *ch.of(&QUALS);
    let over = !quals.contains("final") && !quals.contains("private") && ch.flag();
    let body = |k: i32| format!("{{ T({k}); return p + {k}; }}");
    let mut first = format!(
        "public class A {{ {quals}func F(p: Int32) -> Int32 {} public func F(p: Bool, opt q: Int32) -> Int32 {{ return 2; }} public func H() {{ T(3); }} public let f: Int32; }}\n",
        body(1)
    );
    first.push_str("public class B extends A { ");
    if over {
        first.push_str(&format!("{quals}func F(p: Int32) -> Int32 {} ", body(4)));
    }
    first.push_str("public func K() { T(5); } }\npublic class X {}\npublic enum E { a = 0 }\n");
    first.push_str("public func G(p: Int32) -> Int32 { return 6; }\npublic func G(p: Bool) -> Int32 { return 7; }\n");
    let mut pool = base::pool();
    let out = base::compile(&mut pool, &[&first]).map_err(|e| Fail { key: "-".into(), detail: format!("{first}\nis not compiled: {e}") })?;
    if let Some(d) = base::fatal(out.diagnostics()) {
        return fail("-", format!("{first}\nis rejected: {d}"));
    }
    let mut expected = entries(&pool);
    let mut ok = true;
    let mut warned = 0;
    let mut text = String::new();
    let mut done: Vec<(u32, &str, &str)> = vec![];
    let rounds = if two { 2 } else { 1 };
    let mut rejected = None;
    let split = two && ch.flag();
    for i in 0..rounds {
        let kind = ch.pick(4);
        let ann = ["@wrapMethod", "@replaceMethod", "@addMethod", "@replaceGlobal"][kind];
        let arg = if kind == 3 { "" } else { *ch.of(if two { &["A", "B"] as &[&str] } else { &["A", "B", "X", "E", "Missing", "", "\"A\"", "A.B", "1"] }) };
        let name = *ch.of(if two { &["F", "G"] as &[&str] } else { &["F", "H", "G", "K", "M"] });
        let params = *ch.of(if two { &["p: Int32"] as &[&str] } else { &["p: Int32", "p: Bool", "", "p: Int32, q: Int32", "p: Bool, q: Int32", "p: script_ref<Int32>", "out p: Int32"] });
        // as it was declared, or as any other
        let q = if name == "F" && arg != "X" && (params != "p: Bool, q: Int32" || quals.contains("cb")) { quals } else { "public " };
        let cb = q.contains("cb");
        let args = params.replace(": Int32", "").replace(": Bool", "").replace(": script_ref<Int32>", "").replace("out ", "");
        let returns = !matches!(name, "H" | "K");
        let code = match (kind == 0, returns) {
            (true, true) => format!("{{ return wrappedMethod({args}); }}"),
            (true, false) => format!("{{ wrappedMethod({args}); }}"),
            (_, true) => "{ return 9; }".to_owned(),
            (_, false) => "{ T(9); }".to_owned(),
        };
        let arrow = if returns { " -> Int32" } else { "" };
        text.push_str(&format!("{ann}({arg})\n{q}func {name}({params}){arrow} {code}\n"));
        // which one that is
        let same = match (name, params) {
            ("F", "p: Int32" | "out p: Int32") => 1,
            // the signature of a callback is its name
            ("F", _) if cb => 1,
            ("F", "p: Bool, q: Int32") => 2,
            ("G", "p: Int32" | "out p: Int32") => 3,
            ("G", "p: Bool") => 4,
            ("H", "") => 5,
            ("K", "") => 6,
            _ => 0,
        };
        let there = match arg {
            "A" => matches!(same, 1 | 2 | 5) || done.contains(&(same, "A", name)),
            "B" => (same == 1 && over) || same == 6 || done.contains(&(same, "B", name)),
            _ => false,
        };
        // anything a callback takes matches it, and only the same is known to work
        let sound = match (kind, params) {
            (0, "out p: Int32") => false,
            (0, "p: Int32") => true,
            (0, _) => !(same == 1 && cb),
            (1, "out p: Int32") => false,
            (1, "p: Int32") => true,
            (1, _) => !(same == 1 && cb),
            (3, "out p: Int32") => false,
            _ => true,
        };
        if !sound {
            return Ok(());
        }
        match kind {
            0 | 1 => ok &= there,
            2 => {
                ok &= matches!(arg, "A" | "B" | "X");
                if there {
                    // a second one of the same name: which is meant is not said
                    return Ok(());
                }
                done.push((same, arg, name));
                done.push((same, arg, "replaced"));
            }
            _ => ok &= matches!(same, 3 | 4),
        }
        let replaces = (kind == 1 && there) || (kind == 3 && matches!(same, 3 | 4));
        if replaces && done.contains(&(same, arg, "replaced")) {
            warned += 1;
        }
        if replaces {
            done.push((same, arg, "replaced"));
        }
        let _ = i;
        if split && i == 0 {
            // what was added is there in the next round
            match round(&mut pool, &text, &first)? {
                Ok(_) if !ok => return fail(key(&text), format!("{first}\nthen\n{text}\nis accepted, but names nothing that is there")),
                Err(d) if ok => return fail(key(&text), format!("{first}\nthen\n{text}\nis rejected: {d}")),
                Err(_) => return Ok(()),
                Ok(_) => {}
            }
            text.clear();
            expected = entries(&pool);
            done.retain(|d| d.2 != "replaced");
            warned = 0;
        }
    }
    cx.case(|| format!("{first}{text}"));
    cx.state();
    cx.step();
    let added = entries(&pool).len();
    let seen = match round(&mut pool, &text, &first)? {
        Ok(n) => n,
        Err(d) => {
            rejected = Some(d);
            0
        }
    };
    if let Some(d) = rejected {
        return if ok { fail(key(&text), format!("{first}\nthen\n{text}\nis rejected: {d}")) } else { Ok(()) };
    }
    if !ok {
        return fail(key(&text), format!("{first}\nthen\n{text}\nis accepted, but names nothing that is there"));
    }
    if seen != warned {
        return fail(key(&text), format!("{first}\nthen\n{text}\nshould be warned about {warned} times, but is {seen} times"));
    }
    if let Err(m) = wf::check(&pool, false) {
        return fail(key(&text), format!("{first}\nthen\n{text}\nleaves a pool that is not well-formed: {m}"));
    }
    let after = entries(&pool);
    for e in &expected {
        if after.iter().filter(|x| *x == e).count() != 1 {
            return fail(key(&text), format!("{first}\nthen\n{text}\nthere is no longer one {e}\nbut {after:#?}"));
        }
    }
    let new = text.matches("@addMethod").count();
    if after.len() != added + new {
        return fail(key(&text), format!("{first}\nthen\n{text}\nthere are {} functions, not {}: {after:#?}", after.len(), added + new));
    }
    // what the compiler made up is not called by anything else
    for (i, d) in pool.definitions() {
        let redscript::definition::AnyDefinition::Function(f) = &d.value else { continue };
        let n = pool.names.get(d.name).unwrap();
        if n.contains('$') && (f.flags.is_callback() || f.flags.is_exec()) {
            return fail(key(&text), format!("{first}\nthen\n{text}\n{n} ({i}) would be called too: {:?}", f.flags));
        }
    }
    cx.trace();
    Ok(())
}

/// compiles a round; the warnings of replacing twice, or what is fatal
fn round(pool: &mut redscript::bundle::ConstantPool, text: &str, first: &str) -> Result<Result<usize, String>, Fail> {
    let out = match base::compile(pool, &[text]) {
        Ok(o) => o,
        Err(e) => return Ok(Err(format!("not compiled: {e}"))),
    };
    let _ = first;
    if let Some(d) = base::fatal(out.diagnostics()) {
        return Ok(Err(d));
    }
    Ok(Ok(out.diagnostics().iter().filter(|d| format!("{d:?}").starts_with("ReplaceMethodConflict")).count()))
}

pub fn run(ctx: &Ctx) {
    ctx.explore("what is named", |ch, cx| naming(ch, cx, false));
    ctx.explore("what is named twice", |ch, cx| naming(ch, cx, true));
    if ctx.thorough() {
        histories(ctx, "histories of four in one compilation", 4, 2);
        histories(ctx, "histories of three", 3, 3);
    } else {
        histories(ctx, "histories of two", 2, 3);
        histories(ctx, "histories of three", 3, 3);
    }
}
