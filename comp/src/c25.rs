//! C25: modules, imports, visibility and conditional compilation.
use redscript::bundle::ConstantPool;

use crate::base;
use crate::c22::key;
use crate::lang::World;
use crate::util::{fail, Chooser, Ctx, Cx, Fail};
use crate::vm::Vm;
use crate::wf;

const PATHS: [&str; 4] = ["", "A", "A.B", "B"];

#[derive(Clone, Debug)]
enum Import {
    Exact(&'static str, &'static str),
    All(&'static str),
    Some(&'static str, Vec<&'static str>),
}

impl Import {
    fn text(&self) -> String {
        match self {
            Import::Exact(m, n) => format!("import {m}.{n}\n"),
            Import::All(m) => format!("import {m}.*\n"),
            Import::Some(m, ns) => format!("import {m}.{{{}}}\n", ns.join(", ")),
        }
    }
}

/// something a module holds
#[derive(Clone, Debug, PartialEq)]
struct Item {
    module: &'static str,
    name: &'static str,
    public: bool,
    func: bool,
    id: i32,
    /// what a function takes: a number or a text
    text: bool,
}

/// what a name stands for in a file of a module: items, the first choice first; Err where an import names nothing
fn visible(all: &[Item], modules: &[&str], module: &str, imports: &[Import], name: &str) -> Result<Vec<Item>, ()> {
    let mut seen: Vec<Item> = vec![];
    let mut add = |xs: Vec<Item>| {
        if xs.is_empty() {
            return;
        }
        if xs[0].func && seen.first().is_some_and(|s| s.func) {
            seen.extend(xs);
        } else {
            seen = xs;
        }
    };
    let of = |m: &str, n: &str, private: bool| -> Vec<Item> {
        all.iter().filter(|i| i.module == m && i.name == n && (private || i.public)).cloned().collect()
    };
    add(of("", name, true));
    if !module.is_empty() {
        add(of(module, name, true));
    }
    for i in imports {
        match i {
            Import::Exact(m, n) => {
                if of(m, n, true).is_empty() {
                    return Err(());
                }
                if *n == name {
                    add(of(m, n, false));
                }
            }
            Import::Some(m, ns) => {
                for n in ns {
                    if of(m, n, true).is_empty() {
                        return Err(());
                    }
                    if *n == name {
                        add(of(m, n, false));
                    }
                }
            }
            Import::All(m) => {
                if !modules.iter().any(|x| x == m || x.starts_with(&format!("{m}."))) {
                    return Err(());
                }
                add(of(m, name, false));
            }
        }
    }
    Ok(seen)
}

fn header(module: &str) -> String {
    if module.is_empty() {
        String::new()
    } else {
        format!("module {module}\n")
    }
}

fn full(module: &str, name: &str) -> String {
    if module.is_empty() {
        name.into()
    } else {
        format!("{module}.{name}")
    }
}

/// compiles the rounds and runs Main: what it says, or why it is refused
fn run_main(rounds: &[Vec<String>], main: &str) -> Result<Result<Vec<String>, String>, String> {
    let mut pool = base::pool();
    for files in rounds {
        let files: Vec<&str> = files.iter().map(String::as_str).collect();
        if files.is_empty() {
            continue;
        }
        match base::compile(&mut pool, &files).and_then(|o| base::fatal(o.diagnostics()).map_or(Ok(()), Err)) {
            Ok(()) => {}
            Err(e) => return Ok(Err(e)),
        }
        wf::check(&pool, false).map_err(|e| format!("leaves a pool that is not well-formed: {e}"))?;
    }
    said(&pool, main).map(Ok)
}

fn said(pool: &ConstantPool, main: &str) -> Result<Vec<String>, String> {
    let mut world = World::new(0);
    let Some(f) = Vm::new(pool, &mut World::new(0)).find(None, main) else {
        return Err(format!("there is no {main}"));
    };
    let mut vm = Vm::new(pool, &mut world);
    match vm.call(f, None, vec![]) {
        Ok(_) => Ok(world.log),
        Err(crate::lang::Stop::Bad(m)) => Err(format!("does not run: {m}")),
        Err(_) => Err("asks".into()),
    }
}

fn decide(shown: &str, rounds: &[Vec<String>], main: &str, want: Result<Vec<String>, ()>, cx: &mut Cx) -> Result<(), Fail> {
    cx.case(|| shown.to_owned());
    cx.state();
    let got = match run_main(rounds, main) {
        Ok(g) => g,
        Err(e) => return fail(key(shown), format!("{shown}\n{e}")),
    };
    cx.step();
    match (want, got) {
        (Err(()), Err(_)) => {}
        (Ok(w), Ok(g)) if w == g => {}
        (Ok(w), g) => return fail(key(shown), format!("{shown}\nshould say {w:?}, but {g:?}")),
        (Err(()), Ok(g)) => return fail(key(shown), format!("{shown}\nshould be refused, but says {g:?}")),
    }
    cx.trace();
    cx.sample(|| shown.to_owned());
    Ok(())
}

/// places the user's file among the others
fn arrange(files: Vec<String>, user: String, at: usize, earlier: bool) -> Vec<Vec<String>> {
    if earlier {
        vec![files, vec![user]]
    } else {
        let mut files = files;
        files.insert(at, user);
        vec![files]
    }
}

fn show(rounds: &[Vec<String>]) -> String {
    rounds.iter().map(|r| r.join("-- next file\n")).collect::<Vec<_>>().join("-- next round\n")
}

fn import_menu() -> Vec<Import> {
    let mut v = vec![];
    for m in ["A", "A.B", "B"] {
        v.push(Import::Exact(m, "f"));
        v.push(Import::All(m));
        v.push(Import::Some(m, vec!["f"]));
    }
    v.push(Import::All("Z"));
    v.push(Import::Exact("Z", "f"));
    v.push(Import::Some("A", vec!["f", "g"]));
    v
}

fn pick_imports(ch: &mut Chooser, max: usize) -> Vec<Import> {
    let menu = import_menu();
    let n = ch.pick(max + 1);
    (0..n).map(|_| ch.of(&menu).clone()).collect()
}

fn functions(ch: &mut Chooser, cx: &mut Cx, max: usize, places: usize) -> Result<(), Fail> {
    let mut items = vec![];
    for i in 0..2 {
        let module = *ch.of(&PATHS);
        let text = ch.flag();
        let public = ch.flag();
        items.push(Item { module, name: "f", public, func: true, id: i + 1, text });
    }
    if items[0].module == items[1].module && items[0].text == items[1].text {
        return Ok(());
    }
    let user = *ch.of(&PATHS);
    let imports = pick_imports(ch, max);
    let text = ch.flag();
    let place = ch.pick(places);
    let files: Vec<String> = items
        .iter()
        .map(|i| {
            format!(
                "{}{}func f(p: {}) {{ T({}); }}\n",
                header(i.module),
                if i.public { "public " } else { "" },
                if i.text { "String" } else { "Int32" },
                i.id
            )
        })
        .collect();
    let u = format!(
        "{}{}public func Main() {{ f({}); }}\n",
        header(user),
        imports.iter().map(Import::text).collect::<String>(),
        if text { "\"x\"" } else { "1" }
    );
    let rounds = match place {
        0 => arrange(files, u, 2, false),
        1 => arrange(files, u, 0, true),
        2 => arrange(files, u, 0, false),
        _ => arrange(files, u, 1, false),
    };
    let mut modules: Vec<&str> = items.iter().map(|i| i.module).collect();
    modules.push(user);
    let want = visible(&items, &modules, user, &imports, "f")
        .and_then(|v| v.iter().find(|i| i.text == text).map(|i| vec![format!("T(Int({}))", i.id)]).ok_or(()));
    decide(&show(&rounds), &rounds, &full(user, "Main"), want, cx)
}

/// what can be done with a class
const USES: [(&str, &str); 7] = [
    ("T(new C().m());", ""),
    ("T(C.s());", ""),
    ("T(use(new C()));", "func use(c: ref<C>) -> Int32 = c.m()"),
    ("let l: array<ref<C>>; ArrayPush(l, new C()); T(l[0].m());", ""),
    ("T(new D().m());", "class D extends C {}"),
    ("let h = new H(); h.c = new C(); T(h.c.m());", "class H { let c: wref<C>; }"),
    ("let c: ref<C> = Base(new C()) as C; T(c.m());", "func Base(c: ref<IScriptable>) -> ref<IScriptable> = c"),
];

fn classes(ch: &mut Chooser, cx: &mut Cx, max: usize, places: usize) -> Result<(), Fail> {
    let mut items = vec![];
    for i in 0..2 {
        let module = *ch.of(&PATHS);
        let public = ch.flag();
        items.push(Item { module, name: "C", public, func: false, id: i + 1, text: false });
    }
    let user = *ch.of(&PATHS);
    let imports = pick_imports(ch, max)
        .into_iter()
        .map(|i| match i {
            Import::Exact(m, _) => Import::Exact(m, "C"),
            Import::Some(m, ns) if ns.len() == 1 => Import::Some(m, vec!["C"]),
            Import::Some(m, _) => Import::Some(m, vec!["C", "g"]),
            i => i,
        })
        .collect::<Vec<_>>();
    let (usage, helper) = *ch.of(&USES);
    let place = ch.pick(places);
    let files: Vec<String> = items
        .iter()
        .map(|i| {
            format!(
                "{}{}class C {{ public func m() -> Int32 = {} public static func s() -> Int32 = {} }}\n",
                header(i.module),
                if i.public { "public " } else { "" },
                i.id,
                i.id
            )
        })
        .collect();
    let u = format!(
        "{}{}public func Main() {{ {usage} }} {helper}\n",
        header(user),
        imports.iter().map(Import::text).collect::<String>(),
    );
    let rounds = match place {
        0 => arrange(files, u, 2, false),
        1 => arrange(files, u, 0, true),
        2 => arrange(files, u, 0, false),
        _ => arrange(files, u, 1, false),
    };
    let mut modules: Vec<&str> = items.iter().map(|i| i.module).collect();
    modules.push(user);
    let twice = items[0].module == items[1].module;
    let want = if twice {
        Err(())
    } else {
        visible(&items, &modules, user, &imports, "C").and_then(|v| v.last().map(|i| vec![format!("T(Int({}))", i.id)]).ok_or(()))
    };
    decide(&show(&rounds), &rounds, &full(user, "Main"), want, cx)
}

/// types that cross the borders of modules, with names that are the same and names that are not imported
fn borders(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let provider = *ch.of(&PATHS[1..]);
    let user = *ch.of(&PATHS);
    if provider == user {
        return Ok(());
    }
    // what the user knows by the name of the provider's class
    let own = ch.pick(3);
    let imports = ch.pick(3);
    let kind = ch.pick(5);
    let earlier = ch.flag();
    let p = format!(
        "module {provider}
public class C {{ public let x: Int32; public final func m() -> Int32 = 1 public static func s() -> Int32 = 11 }}
public struct S {{ public let y: Int32; }}
public enum E {{ e = 5, }}
public class Holder {{ public let c: ref<C>; public let s: S; public let e: E; public let l: array<ref<C>>; }}
public func make() -> ref<C> = new C()
public func makeS() -> S = new S(21)
public func take(c: ref<C>) -> Int32 = 31 + c.x
public func holder() -> ref<Holder> {{ let h = new Holder(); h.c = make(); h.s = makeS(); h.e = E.e; ArrayPush(h.l, h.c); return h; }}
"
    );
    let g = match own {
        0 => String::new(),
        1 => "public class C { public let x: Int32; public final func m() -> Int32 = 2 public static func s() -> Int32 = 12 } public struct S { public let z: String; public let y: Int32; } public enum E { e = 6, }".to_owned(),
        _ => "public struct C { public let x: String; } public class S {} public func E() {}".to_owned(),
    };
    // the user's own things lie in its module, or are global
    let global = own > 0 && !user.is_empty() && ch.flag();
    let imp = match imports {
        0 => format!("import {provider}.{{make, makeS, take, holder}}\n"),
        1 => format!("import {provider}.*\n"),
        _ => format!("import {provider}.make\nimport {provider}.makeS\nimport {provider}.take\nimport {provider}.holder\n"),
    };
    let (body, want) = match kind {
        0 => ("let c = make(); T(c.m()); c.x = 4; T(take(c)); T(take(make()));", vec![1, 35, 31]),
        1 => ("T(make().m()); let h = holder(); T(h.c.m()); T(h.l[0].m()); T(take(h.c));", vec![1, 1, 1, 31]),
        2 => ("let s = makeS(); T(s.y); s.y = 3; T(s.y); let t = makeS(); T(t.y);", vec![21, 3, 21]),
        3 => ("let h = holder(); T(h.s.y); let e = h.e; T(EnumInt(e)); h.s = makeS(); T(h.s.y);", vec![21, 5, 21]),
        _ => ("let h = holder(); let l = h.l; ArrayPush(l, make()); for c in l { T(take(c)); }", vec![31, 31]),
    };
    let u = format!("{}{imp}public func Main() {{ {body} }}\n{}\n", header(user), if global { "" } else { &g });
    let mut files = vec![p];
    if global {
        files.push(g);
    }
    let at = files.len();
    let rounds = arrange(files, u, at, earlier);
    let want = want.iter().map(|x| format!("T(Int({x}))")).collect();
    decide(&show(&rounds), &rounds, &full(user, "Main"), Ok(want), cx)
}

/// a class of one module in place of a class of the same name of another
fn mixups(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let provider = *ch.of(&PATHS[1..]);
    let user = *ch.of(&PATHS);
    if provider == user {
        return Ok(());
    }
    let kind = ch.pick(6);
    let global = !user.is_empty() && ch.flag();
    let earlier = ch.flag();
    let c = "public class C { public let x: Int32; } public struct S { public let y: Int32; }";
    let p = format!("module {provider}\n{c} public func make() -> ref<C> = new C() public func makeS() -> S = new S(1) public func take(c: ref<C>) {{}} public class H {{ public let c: ref<C>; }}\n");
    let body = [
        "let c: ref<C> = make();",
        "take(new C());",
        "let s: S = makeS();",
        "new H().c = new C();",
        "let l = [make(), new C()];",
        "let c: wref<C> = make();",
    ][kind];
    let u = format!(
        "{}import {provider}.{{make, makeS, take, H}}\npublic func Main() {{ {body} }}\n{}\n",
        header(user),
        if global { "" } else { c }
    );
    let mut files = vec![p];
    if global {
        files.push(c.to_owned());
    }
    let at = files.len();
    let rounds = arrange(files, u, at, earlier);
    // two unrelated classes have a common base
    let want = if kind == 4 { Ok(vec![]) } else { Err(()) };
    decide(&show(&rounds), &rounds, &full(user, "Main"), want, cx)
}

// ---------------------------------------------------------------- conditions

enum C {
    Lit(bool),
    Exists(&'static str),
    Not(Box<C>),
    And(Box<C>, Box<C>),
    Or(Box<C>, Box<C>),
    Cond(Box<C>, Box<C>, Box<C>),
    Bad(&'static str),
}

fn cond(ch: &mut Chooser, depth: usize, bad: bool) -> C {
    let n = if depth == 0 { 5 } else { 9 };
    let b = |c| Box::new(c);
    match ch.pick(n + usize::from(bad)) {
        0 => C::Lit(false),
        1 => C::Lit(true),
        2 => C::Exists("A"),
        3 => C::Exists("A.B"),
        4 => C::Exists("Z"),
        k if k == n => C::Bad(["1", "\"A\"", "x", "true == true", "Exists(\"A\")", "ModuleExists()", "-true"][ch.pick(7)]),
        5 => C::Not(b(cond(ch, depth - 1, bad))),
        6 => C::And(b(cond(ch, depth - 1, bad)), b(cond(ch, depth - 1, bad))),
        7 => C::Or(b(cond(ch, depth - 1, bad)), b(cond(ch, depth - 1, bad))),
        _ => C::Cond(b(cond(ch, depth - 1, false)), b(cond(ch, depth - 1, false)), b(cond(ch, depth - 1, false))),
    }
}

impl C {
    fn text(&self) -> String {
        let a = |c: &C| match c {
            C::Lit(_) | C::Exists(_) | C::Bad(_) => c.text(),
            _ => format!("({})", c.text()),
        };
        match self {
            C::Lit(b) => b.to_string(),
            C::Exists(m) => format!("ModuleExists(\"{m}\")"),
            C::Not(c) => format!("!{}", a(c)),
            C::And(x, y) => format!("{} && {}", a(x), a(y)),
            C::Or(x, y) => format!("{} || {}", a(x), a(y)),
            C::Cond(c, x, y) => format!("{} ? {} : {}", a(c), a(x), a(y)),
            C::Bad(t) => format!("({t})"),
        }
    }
    fn value(&self, modules: &[&str]) -> Result<bool, ()> {
        Ok(match self {
            C::Lit(b) => *b,
            C::Exists(m) => modules.contains(m),
            C::Not(c) => !c.value(modules)?,
            C::And(x, y) => {
                let (x, y) = (x.value(modules)?, y.value(modules)?);
                x && y
            }
            C::Or(x, y) => {
                let (x, y) = (x.value(modules)?, y.value(modules)?);
                x || y
            }
            C::Cond(c, x, y) => {
                if c.value(modules)? {
                    x.value(modules)?
                } else {
                    y.value(modules)?
                }
            }
            C::Bad(_) => return Err(()),
        })
    }
}

fn conditions(ch: &mut Chooser, cx: &mut Cx, depth: usize, bad: bool, two: Option<usize>) -> Result<(), Fail> {
    let first = cond(ch, depth, bad);
    let second = two.map(|d| cond(ch, d, bad));
    let (a, ab) = (ch.flag(), ch.flag());
    let mut modules = vec!["B"];
    let mut files = vec![String::new()];
    for (m, there) in [("A", a), ("A.B", ab)] {
        if there {
            modules.push(m);
            files.push(format!("module {m}\n"));
        }
    }
    let kind = if depth >= 2 || two.is_some_and(|d| d > 0) { 0 } else { ch.pick(9) };
    let ann = format!(
        "@if({}) {}",
        first.text(),
        second.as_ref().map(|s| format!("@if({}) ", s.text())).unwrap_or_default()
    );
    let truth = first.value(&modules).and_then(|x| match &second {
        None => Ok(x),
        Some(s) => s.value(&modules).map(|y| x && y),
    });
    // one thing that is there or not, and what is said in each case
    let (text, yes, no): (String, Result<Vec<i32>, ()>, Result<Vec<i32>, ()>) = match kind {
        0 => (format!("{ann} func f(p: Int32) {{ T(1); }} func f(p: String) {{}} public func Main() {{ f(1); T(2); }}"), Ok(vec![1, 2]), Err(())),
        1 => (format!("{ann} class K {{ }} public func Main() {{ let k: ref<K>; T(2); }}"), Ok(vec![2]), Err(())),
        2 => (format!("{ann} struct K {{ let x: Int32; }} public func Main() {{ let k = new K(3); T(k.x); }}"), Ok(vec![3]), Err(())),
        3 => (format!("{ann} enum K {{ e = 4 }} public func Main() {{ T(EnumInt(K.e)); }}"), Ok(vec![4]), Err(())),
        4 => (
            format!("class P {{ public func m() -> Int32 = 5 }} class K extends P {{ {ann} public func m() -> Int32 = 6 }} public func Main() {{ T(new K().m()); }}"),
            Ok(vec![6]),
            Ok(vec![5]),
        ),
        5 => (format!("class K {{ {ann} let x: Int32; let y: Int32; }} public func Main() {{ let k = new K(); k.y = 1; k.x = 2; T(k.x); T(k.y); }}"), Ok(vec![2, 1]), Err(())),
        6 => (format!("struct K {{ {ann} let x: Int32; let y: Int32; }} public func Main() {{ let k = new K(8); T(k.y); }}"), Err(()), Ok(vec![8])),
        7 => (format!("public func Main() {{ T(new K().m()); T(new K().n()); }} {ann} @addMethod(K) public func n() -> Int32 = 9"), Ok(vec![5, 9]), Err(())),
        // the import comes before everything else
        _ => (String::new(), Ok(vec![7]), Err(())),
    };
    if kind == 8 {
        files.push("module B\npublic func f(p: Int32) { T(7); } public func g() {}\n".into());
        files[0] = format!("{ann} import B.*\npublic func Main() {{ f(1); }}\n");
    } else {
        files[0] = text;
        files.push("module B\n".into());
    }
    let want = match truth {
        Ok(true) => yes,
        Ok(false) => no,
        Err(()) => Err(()),
    }
    .map(|v| v.iter().map(|x| format!("T(Int({x}))")).collect());
    // the user's file stands first or last
    if ch.flag() {
        files.rotate_left(1);
    }
    let mut rounds = vec![files];
    if kind == 7 {
        rounds.insert(0, vec!["class K { public func m() -> Int32 = 5 }\n".into()]);
    }
    decide(&show(&rounds), &rounds, "Main", want, cx)
}

pub fn run(ctx: &Ctx) {
    let deep = ctx.thorough();
    ctx.explore("functions", |ch, cx| functions(ch, cx, 1, 4));
    ctx.explore("functions, two imports", |ch, cx| functions(ch, cx, 2, if deep { 4 } else { 1 }));
    ctx.explore("classes", |ch, cx| classes(ch, cx, 1, 4));
    ctx.explore("classes, two imports", |ch, cx| classes(ch, cx, 2, if deep { 4 } else { 1 }));
    ctx.explore("types of other modules", borders);
    ctx.explore("classes of the same name", mixups);
    ctx.explore("conditions", |ch, cx| conditions(ch, cx, 1, true, None));
    ctx.explore("two conditions", |ch, cx| conditions(ch, cx, 0, true, Some(0)));
    ctx.explore("two conditions of depth one", |ch, cx| conditions(ch, cx, 1, deep, Some(1)));
    ctx.explore("conditions of depth two", |ch, cx| conditions(ch, cx, if deep { 2 } else { 1 }, deep, None));
}
