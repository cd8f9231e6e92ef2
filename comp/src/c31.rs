//! C31: what the compiler warns of and what it refuses beyond types.
use std::collections::BTreeSet;

use redscript::ast::{Pos, Span};
use redscript::bundle::ConstantPool;
use redscript_compiler::diagnostics::{Deprecation, Diagnostic};
use redscript_compiler::parser;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

use crate::base;
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};

/// a text under construction, with the places of what is in it
#[derive(Default, Clone)]
struct Text {
    s: String,
}

impl Text {
    fn at(&self) -> usize {
        self.s.len()
    }
    fn put(&mut self, s: &str) {
        self.s.push_str(s);
    }
}

/// what is reported: its kind and the place
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
    Unused,
    NoReturn,
    Fallthrough,
    Temporary,
    Unrelated,
    FieldConflict,
    MethodConflict,
    Replaced,
    Error,
}

fn kind(d: &Diagnostic) -> Kind {
    match d {
        Diagnostic::UnusedLocal(_) => Kind::Unused,
        Diagnostic::MissingReturn(_) => Kind::NoReturn,
        Diagnostic::StatementFallthrough(_) => Kind::Fallthrough,
        Diagnostic::InvalidUseOfTemporary(_) => Kind::Temporary,
        Diagnostic::Deprecation(Deprecation::UnrelatedTypeEquals, _) => Kind::Unrelated,
        Diagnostic::FieldConflict(_) => Kind::FieldConflict,
        Diagnostic::AddMethodConflict(_) => Kind::MethodConflict,
        Diagnostic::ReplaceMethodConflict(_, _) => Kind::Replaced,
        _ => Kind::Error,
    }
}

/// a place in a text: from, to
type Range = (usize, usize);

/// compiles one file and gives what was reported, with the places
fn report(text: &str) -> Result<Vec<(Kind, Range)>, Fail> {
    let mut pool = setting();
    let mut files = Files::new();
    files.add("a.reds".into(), text.to_owned());
    let r = guarded(|| {
        CompilationUnit::new_with_defaults(&mut pool)
            .map_err(|e| e.to_string())?
            .compile_files(&files)
            .map_err(|e| e.to_string())
    });
    match r {
        Err(p) => fail("panic", format!("{text}\n  panicked: {p}")),
        Ok(Err(e)) => fail("no report", format!("{text}\n  ended with {e}")),
        Ok(Ok(o)) => {
            let at = |p: Pos| (0..=text.len()).find(|i| Pos::new(*i) == p).unwrap_or(usize::MAX);
            let list: Vec<_> = o.diagnostics().iter().map(|d| (kind(d), (at(d.span().low), at(d.span().high)))).collect();
            // what does not stop the compilation comes first
            let fatal: Vec<bool> = o.diagnostics().iter().map(Diagnostic::is_fatal).collect();
            if fatal.windows(2).any(|w| w[0] && !w[1]) {
                return fail("order", format!("{text}\n  warnings after errors: {list:?}"));
            }
            for (d, f) in o.diagnostics().iter().zip(&fatal) {
                let stops = matches!(kind(d), Kind::Fallthrough | Kind::Temporary | Kind::Error);
                if stops != *f {
                    return fail("severity", format!("{text}\n  {d:?} stops the compilation: {f}"));
                }
            }
            Ok(list)
        }
    }
}

/// compares what is reported with what has to be: each place expected has one report of its kind inside it
fn judge(text: &str, want: &[(Kind, Range)]) -> Result<(), Fail> {
    let got = report(text)?;
    let mut left = got.clone();
    for (k, (from, to)) in want {
        let i = left.iter().position(|(g, (a, b))| g == k && a >= from && a <= b && (b <= to || *k == Kind::NoReturn && a < to));
        match i {
            Some(i) => {
                left.remove(i);
            }
            None => {
                return fail(
                    format!("not reported: {k:?}"),
                    format!("{text}\n  {k:?} is not reported at {from}..{to} ({:?})\n  reported: {got:?}", &text[*from..*to]),
                );
            }
        }
    }
    if let Some((k, _)) = left.first() {
        return fail(format!("reported: {k:?}"), format!("{text}\n  reported without cause: {left:?}\n  expected: {want:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- flow

#[derive(Clone, Debug)]
enum S {
    Say,
    Ret,
    Brk,
    If(B, Option<B>),
    While(B),
    For(B),
    Switch(Vec<B>, Option<B>),
}
type B = Vec<S>;

/// a body with up to `n` statements, of which `n` is what remains
fn body(ch: &mut Chooser, n: &mut usize, depth: usize, brk: bool, min: usize, few: bool) -> B {
    let mut b = vec![];
    while *n > 0 {
        if b.len() >= min && ch.flag() {
            break;
        }
        *n -= 1;
        let mut kinds = vec![0, 1];
        if brk {
            kinds.push(2);
        }
        if depth > 0 && *n > 0 {
            kinds.extend([3, 4, 5, 6]);
        }
        if few {
            // branches and ends alone
            kinds.retain(|k| !matches!(k, 1 | 4 | 5));
        }
        let s = match *ch.of(&kinds) {
            0 => S::Ret,
            1 => S::Say,
            2 => S::Brk,
            3 => {
                let t = body(ch, n, depth - 1, brk, 0, few);
                let e = ch.flag().then(|| body(ch, n, depth - 1, brk, 0, few));
                S::If(t, e)
            }
            4 => S::While(body(ch, n, depth - 1, true, 1, few)),
            5 => S::For(body(ch, n, depth - 1, true, 1, few)),
            _ => {
                let k = ch.pick(4);
                let cases = (0..k).map(|_| body(ch, n, depth - 1, true, 0, few)).collect();
                let d = (k == 0 || ch.flag()).then(|| body(ch, n, depth - 1, true, 0, few));
                S::Switch(cases, d)
            }
        };
        let stop = matches!(s, S::Ret | S::Brk);
        b.push(s);
        // one statement after the end of a path is enough
        if stop && (b.len() > min + 1 || !ch.flag()) {
            break;
        }
    }
    b
}

fn write_body(t: &mut Text, b: &B, ret: &str, falls: &mut Vec<Range>) {
    for s in b {
        match s {
            S::Say => t.put("T(1); "),
            S::Ret => t.put(ret),
            S::Brk => t.put("break; "),
            S::If(a, e) => {
                t.put("if C(0) { ");
                write_body(t, a, ret, falls);
                t.put("} ");
                if let Some(e) = e {
                    t.put("else { ");
                    write_body(t, e, ret, falls);
                    t.put("} ");
                }
            }
            S::While(b) => {
                t.put("while C(0) { ");
                write_body(t, b, ret, falls);
                t.put("} ");
            }
            S::For(b) => {
                t.put("for i in VA([1]) { ");
                write_body(t, b, ret, falls);
                t.put("} ");
            }
            S::Switch(cases, d) => {
                t.put("switch N(1) { ");
                for (i, c) in cases.iter().enumerate() {
                    let from = t.at();
                    t.put(&format!("case {i}:"));
                    if i + 1 < cases.len() && !matches!(c.last(), None | Some(S::Brk | S::Ret)) {
                        falls.push((from, t.at()));
                    }
                    t.put(" ");
                    write_body(t, c, ret, falls);
                }
                if let Some(d) = d {
                    t.put("default: ");
                    write_body(t, d, ret, falls);
                }
                t.put("} ");
            }
        }
    }
}

/// where a body can leave to: past its end, out of the loop or switch around it
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Leaves {
    end: bool,
    out: bool,
}

fn leaves(b: &[S]) -> Leaves {
    let mut all = Leaves { end: true, out: false };
    for s in b {
        if !all.end {
            break;
        }
        let one = match s {
            S::Say => Leaves { end: true, out: false },
            S::Ret => Leaves::default(),
            S::Brk => Leaves { end: false, out: true },
            S::If(a, e) => {
                let (a, e) = (leaves(a), e.as_ref().map_or(Leaves { end: true, out: false }, |e| leaves(e)));
                Leaves {
                    end: a.end || e.end,
                    out: a.out || e.out,
                }
            }
            // a condition is one or the other
            S::While(_) | S::For(_) => Leaves { end: true, out: false },
            S::Switch(cases, d) => {
                let bodies: Vec<&B> = cases.iter().chain(d).collect();
                let mut end = bodies.is_empty();
                for i in 0..bodies.len() {
                    // the case is entered and the ones after it are fallen into
                    let mut here = true;
                    for b in &bodies[i..] {
                        let l = leaves(b);
                        end |= l.out;
                        here = l.end;
                        if !here {
                            break;
                        }
                    }
                    end |= here;
                }
                Leaves { end, out: false }
            }
        };
        all = Leaves {
            end: one.end,
            out: all.out || one.out,
        };
    }
    all
}

fn flow(ch: &mut Chooser, cx: &mut Cx, n: usize, depth: usize, few: bool) -> Result<(), Fail> {
    let b = if few {
        let mut n = n;
        let k = ch.pick(3);
        let cases = (0..k).map(|_| body(ch, &mut n, depth, true, 0, true)).collect();
        let d = (k == 0 || ch.flag()).then(|| body(ch, &mut n, depth, true, 0, true));
        vec![S::Switch(cases, d)]
    } else {
        body(ch, &mut { n }, depth, false, 0, false)
    };
    let mut t = Text::default();
    let mut falls = vec![];
    t.put("func f() -> Int32 ");
    let to = t.at();
    t.put("{ ");
    write_body(&mut t, &b, "return 1; ", &mut falls);
    t.put("}");
    let mut want: Vec<_> = falls.into_iter().map(|r| (Kind::Fallthrough, r)).collect();
    if leaves(&b).end {
        want.push((Kind::NoReturn, (0, to + 1)));
    }
    cx.case(|| t.s.clone());
    cx.state();
    cx.step();
    cx.trace();
    judge(&t.s, &want)
}

/// every kind of function
fn functions(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let b = body(ch, &mut { 3 }, 1, false, 0, false);
    let kinds = ["func", "static", "method", "cb", "final", "add", "replace", "wrap", "global", "void", "void cb"];
    let k = *ch.of(&kinds);
    let second = ch.flag();
    let ret = if k.starts_with("void") { "return; " } else { "return 1; " };
    let mut t = Text::default();
    let mut falls = vec![];
    let class = !matches!(k, "func" | "add" | "replace" | "wrap" | "global");
    if class {
        t.put("class M {\n");
    }
    let from = t.at();
    t.put(match k {
        "func" => "func f() -> Int32 ",
        "static" => "static func f() -> Int32 ",
        "method" => "public func f() -> Int32 ",
        "cb" => "cb func f() -> Bool ",
        "final" => "public final func f() -> Int32 ",
        "add" => "@addMethod(K)\nfunc f() -> Int32 ",
        "replace" => "@replaceMethod(L)\nfunc r() -> Int32 ",
        "wrap" => "@wrapMethod(L)\nfunc w() -> Int32 ",
        "global" => "@replaceGlobal()\nfunc g() -> Int32 ",
        "void" => "func f() ",
        _ => "cb func f() ",
    });
    let to = t.at();
    t.put("{ ");
    let ret = if k == "cb" { "return true; " } else { ret };
    write_body(&mut t, &b, ret, &mut falls);
    t.put("}\n");
    let mut want: Vec<_> = falls.into_iter().map(|r| (Kind::Fallthrough, r)).collect();
    if leaves(&b).end && !matches!(k, "void" | "void cb" | "cb") {
        want.push((Kind::NoReturn, (from, to + 1)));
    }
    if second {
        // another one after it
        let from = t.at();
        t.put("func z() -> Int32 {");
        want.push((Kind::NoReturn, (from, t.at())));
        t.put("}\n");
    }
    if class {
        t.put("}\n");
    }
    cx.case(|| t.s.clone());
    cx.state();
    cx.step();
    cx.trace();
    judge(&t.s, &want)
}

// ---------------------------------------------------------------- locals

struct Scopes {
    /// name, number of the declaration (none for a parameter)
    stack: Vec<(&'static str, Option<usize>)>,
    made: Vec<(Range, bool)>,
}

impl Scopes {
    fn find(&self, n: &str) -> Option<Option<usize>> {
        self.stack.iter().rev().find(|(m, _)| *m == n).map(|(_, d)| *d)
    }
}

const NAMES: [&str; 2] = ["x", "p"];

fn locals_body(ch: &mut Chooser, t: &mut Text, sc: &mut Scopes, n: &mut usize, depth: usize) {
    while *n > 0 {
        if ch.flag() {
            break;
        }
        *n -= 1;
        let mark = sc.stack.len();
        let seen: Vec<_> = NAMES.iter().filter(|n| sc.find(n).is_some()).collect();
        let mut kinds = vec![0, 1];
        if !seen.is_empty() {
            kinds.extend([2, 3, 4]);
        }
        if depth > 0 && *n > 0 {
            kinds.extend([5, 6, 7, 8]);
        }
        let mut mark_used = |sc: &mut Scopes, n: &str| {
            if let Some(Some(d)) = sc.find(n) {
                sc.made[d].1 = true;
            }
        };
        match *ch.of(&kinds) {
            k @ (0 | 1 | 4) => {
                let name = *ch.of(&NAMES);
                let from = t.at();
                match k {
                    0 => t.put(&format!("let {name}: Int32;")),
                    1 => t.put(&format!("let {name} = V(1);")),
                    _ => {
                        // what stands to the right is the one before
                        let other = **ch.of(&seen);
                        t.put(&format!("let {name} = {other};"));
                        mark_used(sc, other);
                    }
                }
                sc.made.push(((from, t.at()), false));
                sc.stack.push((name, Some(sc.made.len() - 1)));
                t.put(" ");
                continue;
            }
            2 => {
                let name = **ch.of(&seen);
                t.put(&format!("T({name}); "));
                mark_used(sc, name);
            }
            3 => {
                let name = **ch.of(&seen);
                t.put(&format!("{name} = 1; "));
                mark_used(sc, name);
            }
            5 => {
                t.put("if C(0) { ");
                locals_body(ch, t, sc, n, depth - 1);
                sc.stack.truncate(mark);
                t.put("} ");
                if ch.flag() {
                    t.put("else { ");
                    locals_body(ch, t, sc, n, depth - 1);
                    sc.stack.truncate(mark);
                    t.put("} ");
                }
            }
            6 => {
                t.put("while C(0) { ");
                locals_body(ch, t, sc, n, depth - 1);
                t.put("} ");
            }
            7 => {
                let name = *ch.of(&NAMES);
                t.put(&format!("for {name} in VA([1]) {{ "));
                sc.stack.push((name, None));
                locals_body(ch, t, sc, n, depth - 1);
                t.put("} ");
            }
            _ => {
                t.put("switch N(1) { case 1: ");
                locals_body(ch, t, sc, n, depth - 1);
                sc.stack.truncate(mark);
                t.put("break; case 2: ");
                locals_body(ch, t, sc, n, depth - 1);
                sc.stack.truncate(mark);
                t.put("break; default: ");
                locals_body(ch, t, sc, n, depth - 1);
                t.put("} ");
            }
        }
        sc.stack.truncate(mark);
    }
}

fn locals(ch: &mut Chooser, cx: &mut Cx, n: usize, depth: usize) -> Result<(), Fail> {
    let mut t = Text::default();
    let mut sc = Scopes {
        stack: vec![("p", None)],
        made: vec![],
    };
    t.put("func f(p: Int32) { ");
    locals_body(ch, &mut t, &mut sc, &mut { n }, depth);
    t.put("}");
    let want: Vec<_> = sc.made.iter().filter(|m| !m.1).map(|m| (Kind::Unused, m.0)).collect();
    cx.case(|| t.s.clone());
    cx.state();
    cx.step();
    cx.trace();
    judge(&t.s, &want)
}

// ---------------------------------------------------------------- uses

const SETTING: &str = "struct S { let f: Int32; let g: G; let a: array<Int32>; static func N() -> S { return new S(1, new G(1), MkA()); } }
struct G { let h: Int32; }
enum En { A = 0, B = 1 }
class O extends IScriptable { let f: Int32; let st: S; let arr: array<Int32>; let o: ref<O>;
  func M(i: Int32) -> Int32 { return i; } static func Q(i: Int32) -> Int32 { return i; }
  func Mk() -> S { return this.st; } func Ar() -> array<Int32> { return this.arr; } func Me() -> ref<O> { return this; } }
class P extends O {}
func Gh(g: G) -> Int32 { return g.h; }
func MkS() -> S { return new S(1, new G(1), MkA()); }
func MkA() -> array<Int32> { let a: array<Int32>; return a; }
func MkAS() -> array<S> { let a: array<S>; return a; }
class K {} class L { func r() -> Int32 { return 1; } func w() -> Int32 { return 1; } }
func g() -> Int32 { return 1; }
func MkO() -> ref<O> { return new O(); }
";

thread_local! {
    static POOL: ConstantPool = {
        let mut pool = base::pool();
        let out = base::compile(&mut pool, &[SETTING]).expect("setting");
        assert!(base::fatal(out.diagnostics()).is_none(), "the setting does not compile");
        pool
    };
}

/// the pool with the definitions of the setting
fn setting() -> ConstantPool {
    POOL.with(Clone::clone)
}

/// numbers made of a number
const OF: [&str; 16] = [
    "V(#)", "# + 1", "1 + #", "-#", "C(0) ? # : 1", "C(0) ? 1 : #", "C(#) ? 1 : 2", "pa[#]", "po.M(#)", "O.Q(#)", "Gh(new G(#))", "EnumInt(IntEnum<En>(#))", "[#, 1][0]", "[1, #][0]",
    "Cast<Int32>(#)", "StrLen(s\"a\\(#)b\")",
];
/// statements around a number
const IN: [&str; 26] = [
    "T(#);",
    "#;",
    "pi = #;",
    "po.f = #;",
    "pst.f = #;",
    "pa[#] = 1;",
    "pa[0] = #;",
    "pi += #;",
    "let z = #; T(z);",
    "let z: Int32 = #; T(z);",
    "return #;",
    "if C(#) { T(1); }",
    "if C(0) { T(#); }",
    "if C(0) { T(1); } else { T(#); }",
    "while C(#) { T(1); }",
    "while C(0) { T(#); }",
    "switch # { case 1: T(1); break; }",
    "switch N(1) { case 1: T(#); break; case 2: break; }",
    "switch N(1) { case 1: break; default: T(#); }",
    "for z in [#] { T(z); }",
    "for z in pa { T(#); }",
    "ArrayPush(pa, #);",
    "ArrayInsert(pa, #, 1);",
    "TW(ToVariant(#));",
    "TS(s\"\\(#)\");",
    "if Equals(#, 1) { T(1); }",
];
const PARAMS: &str = "pi: Int32, pa: array<Int32>, po: ref<O>, pst: S, pas: array<S>, pr: script_ref<array<Int32>>";

fn works(st: &str) -> bool {
    // what the base of the harness knows no function for
    !st.contains("EnumInt") && !st.contains("Cast<") && !st.contains("StrLen") && !st.contains("TW(")
}

fn place(ch: &mut Chooser, deep: usize, e: &str) -> String {
    let mut e = e.to_owned();
    for _ in 0..ch.pick(deep + 1) {
        let of = *ch.of(&OF);
        let arg = if (of.starts_with('-') || of.contains("+ ") || of.contains(" +")) && e.contains(' ') { format!("({e})") } else { e };
        e = of.replace('#', &arg);
    }
    let st = *ch.of(&IN);
    st.replace('#', &e)
}

/// a local used in one place only
fn uses(ch: &mut Chooser, cx: &mut Cx, deep: usize) -> Result<(), Fail> {
    // declaration, use, the same without the local
    let vars: [(&str, &[(&str, &str)]); 6] = [
        ("let x: Int32;", &[("x", "pi")]),
        ("let x: array<Int32>;", &[("x[0]", "pa[0]"), ("ArraySize(x)", "ArraySize(pa)"), ("ArrayLast(x)", "ArrayLast(pa)")]),
        ("let x: ref<O>;", &[("x.f", "po.f"), ("x.M(1)", "po.M(1)"), ("x.o.f", "po.o.f"), ("x.o.M(1)", "po.o.M(1)"), ("(x as P).f", "(po as P).f"), ("(C(0) ? x : po).f", "po.f")]),
        ("let x: S;", &[("x.f", "pst.f"), ("x.g.h", "pst.g.h"), ("x.a[0]", "pst.a[0]")]),
        ("let x: array<S>;", &[("x[0].f", "pas[0].f"), ("x[0].a[1]", "pas[0].a[1]")]),
        ("let x: script_ref<array<Int32>>;", &[("Deref(x)[0]", "Deref(pr)[0]")]),
    ];
    let (decl, forms) = ch.of(&vars);
    let (with, without) = *ch.of(forms);
    let used = ch.flag();
    let st = place(ch, deep, if used { with } else { without });
    if !works(&st) {
        return Ok(());
    }
    let mut t = Text::default();
    t.put(&format!("func f({PARAMS}) -> Int32 {{ "));
    let from = t.at();
    t.put(decl);
    let to = t.at();
    t.put(&format!(" {st} return 1; }}"));
    let want: Vec<_> = (!used).then_some((Kind::Unused, (from, to))).into_iter().collect();
    cx.case(|| st.clone());
    cx.state();
    cx.step();
    cx.trace();
    judge(&t.s, &want)
}

// ---------------------------------------------------------------- temporaries

/// values of a kind: the text, and whether it is held anywhere
type Values = Vec<(String, bool)>;

fn values() -> (Values, Values, Values) {
    let own = |v: &[(&str, bool)]| v.iter().map(|(a, b)| ((*a).to_owned(), *b)).collect::<Values>();
    // structs
    let mut s = own(&[
        ("pst", true),
        ("ls", true),
        ("po.st", true),
        ("po.o.st", true),
        ("MkO().st", true),
        ("po.Me().st", true),
        ("(C(0) ? po : po.o).st", true),
        ("(po as P).st", true),
        ("new O().st", true),
        ("pas[0]", true),
        ("MkS()", false),
        ("new S(1, new G(1), MkA())", false),
        ("S.N()", false),
        ("po.Mk()", false),
        ("(C(0) ? pst : ls)", false),
        ("MkAS()[0]", false),
        ("MkAS()[V(1)]", false),
    ]);
    // arrays
    let mut a = own(&[
        ("pa", true),
        ("la", true),
        ("po.arr", true),
        ("MkO().arr", true),
        ("Deref(pr)", true),
        ("[1, 2]", true),
        ("MkA()", false),
        ("VA(pa)", false),
        ("po.Ar()", false),
        ("(C(0) ? pa : la)", false),
    ]);
    // structs in structs
    let mut g = Values::new();
    for (t, held) in s.clone() {
        a.push((format!("{t}.a"), held));
        g.push((format!("{t}.g"), held));
    }
    s.push(("Deref(AsRef(pst))".into(), true));
    g.push(("new G(1)".into(), false));
    (s, a, g)
}

fn temporaries(ch: &mut Chooser, cx: &mut Cx, deep: usize) -> Result<(), Fail> {
    let (s, a, g) = values();
    let (e, held) = match ch.pick(3) {
        0 => {
            let (t, h) = ch.of(&s).clone();
            (format!("{t}.f"), h)
        }
        1 => {
            let (t, h) = ch.of(&a).clone();
            let with = [
                "#[0]",
                "#[V(1)]",
                "ArraySize(#)",
                "ArrayLast(#)",
                "ArrayPop(#)",
                "ArrayFindFirst(#, 1)",
                "ArrayFindLast(#, 1)",
                "ArrayCount(#, 1)",
                "(ArrayContains(#, 1) ? 1 : 2)",
            ];
            (ch.of(&with).replace('#', &t), h)
        }
        _ => {
            let (t, h) = ch.of(&g).clone();
            (format!("{t}.h"), h)
        }
    };
    let st = place(ch, deep, &e);
    if !works(&st) {
        return Ok(());
    }
    let mut t = Text::default();
    t.put(&format!("func f({PARAMS}) -> Int32 {{ let ls: S; let la: array<Int32>; ls.f = 1; ArrayClear(la); "));
    let from = t.at();
    t.put(&st);
    let to = t.at();
    t.put(" return 1; }");
    cx.case(|| st.clone());
    cx.state();
    cx.step();
    cx.trace();
    let got: Vec<_> = report(&t.s)?;
    let other: Vec<_> = got.iter().filter(|(k, (a, b))| *k != Kind::Temporary || *a < from || *b > to).collect();
    if !other.is_empty() {
        return fail("temporary: else", format!("{st}\n  reported: {got:?}"));
    }
    if got.is_empty() != held {
        return fail(
            format!("temporary: {e}"),
            format!("{st}\n  {} is {}, reported: {got:?}", e, if held { "a use of a place" } else { "a use of a temporary" }),
        );
    }
    let ranges: BTreeSet<_> = got.iter().map(|(_, r)| *r).collect();
    if ranges.len() != got.len() {
        return fail("temporary: twice", format!("{st}\n  reported twice: {got:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- several functions

/// a definition and what is reported of it; `#` is its number
const PARTS: [(&str, &[(Kind, &str)]); 15] = [
    ("func a#() -> Int32 { return 1; }", &[]),
    ("func a#() { let x: Int32; }", &[(Kind::Unused, "let x: Int32;")]),
    ("func a#() -> Int32 { }", &[(Kind::NoReturn, "func a#() -> Int32 {")]),
    ("func a#() { switch N(1) { case 1: T(1); case 2: T(2); } }", &[(Kind::Fallthrough, "case 1:")]),
    ("func a#() { T(MkS().f); }", &[(Kind::Temporary, "MkS()")]),
    ("func a#() { T(\"\"); }", &[(Kind::Error, "T(\"\")")]),
    ("func a#() { let x: Int32; T(\"\"); }", &[(Kind::Error, "T(\"\")")]),
    ("func a#(x: Nothing) {}", &[(Kind::Error, "func a#(x: Nothing) {}")]),
    ("class K# extends Nothing {}", &[(Kind::Error, "class K# extends Nothing {}")]),
    ("func a#() { if Equals(1, \"\") { T(1); } }", &[(Kind::Unrelated, "Equals(1, \"\")")]),
    ("func a#() -> Int32 { let x: Int32; let y: Int32; switch N(1) { case 1: T(1); case 2: T(MkS().f); } }", &[
        (Kind::Unused, "let x: Int32;"),
        (Kind::Unused, "let y: Int32;"),
        (Kind::NoReturn, "func a#() -> Int32 {"),
        (Kind::Fallthrough, "case 1:"),
        (Kind::Temporary, "MkS()"),
    ]),
    ("@addField(O)\nlet f: Int32;", &[(Kind::FieldConflict, "@addField(O)\nlet f: Int32;")]),
    ("@addMethod(O)\nfunc M(i: Int32) -> Int32 { return i; }", &[(Kind::MethodConflict, "@addMethod(O)\nfunc M(i: Int32) -> Int32 {")]),
    ("class K# { func m() { let x: Int32; } func n() -> Int32 {} }", &[(Kind::Unused, "let x: Int32;"), (Kind::NoReturn, "func n() -> Int32 {}")]),
    ("class K# { let f: Int32 = \"\"; let g: Int32; }", &[(Kind::Error, "let f: Int32 = \"\";")]),
];

fn several(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    let mut t = Text::default();
    let mut want = vec![];
    let k = 1 + ch.pick(n);
    let mut picked = vec![];
    for i in 0..k {
        let p = ch.pick(PARTS.len());
        // the two annotations once each
        if (p == 11 || p == 12) && picked.contains(&p) {
            return Ok(());
        }
        picked.push(p);
        let (text, reports) = PARTS[p];
        let number = |s: &str| s.replace('#', &i.to_string());
        let text = number(text);
        let from = t.at();
        t.put(&text);
        t.put("\n");
        for (k, part) in reports {
            let part = number(part);
            let at = from + text.find(&part).expect("the place is in the text");
            want.push((*k, (at, at + part.len())));
        }
    }
    cx.case(|| t.s.clone());
    cx.state();
    cx.step();
    cx.trace();
    judge(&t.s, &want)?;
    // the verdict
    let fatal: Vec<_> = want.iter().filter(|(k, _)| matches!(k, Kind::Fallthrough | Kind::Temporary | Kind::Error)).collect();
    let mut pool = setting();
    let mut files = Files::new();
    files.add("a.reds".into(), t.s.clone());
    let r = CompilationUnit::new_with_defaults(&mut pool).and_then(|u| u.compile_and_report(&files));
    match r {
        Ok(_) if fatal.is_empty() => Ok(()),
        Err(redscript_compiler::error::Error::MultipleErrors(errs)) if errs.len() == fatal.len() && !errs.is_empty() => Ok(()),
        Ok(_) => fail("verdict", format!("{}\n  compiled in spite of {fatal:?}", t.s)),
        Err(e) => fail("verdict", format!("{}\n  refused for {e}, expected {fatal:?}", t.s)),
    }
}

// ---------------------------------------------------------------- how it is shown

/// every short text and every range in it
fn shown(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const LETTERS: [char; 5] = ['a', 'é', '\t', '\n', '😀'];
    let len = ch.pick(n + 1);
    let text: Vec<char> = (0..len).map(|_| *ch.of(&LETTERS)).collect();
    let second = ch.flag();
    let from = ch.pick(len + 1);
    let to = from + ch.pick(len - from + 1);
    let source: String = text.iter().collect();
    let mut files = Files::new();
    let mut low = 0;
    if second {
        files.add("first.reds".into(), "é\nxy".into());
        low = "é\nxy".len() + 1;
    }
    files.add("dir/a.reds".into(), source.clone());
    let byte = |i: usize| low + text[..i].iter().map(|c| c.len_utf8()).sum::<usize>();
    let d = Diagnostic::UnusedLocal(Span::new(Pos::new(byte(from)), Pos::new(byte(to))));
    let mut out = String::new();
    let r = guarded(|| d.display(&files, &mut out));
    cx.case(|| format!("{source:?} {from}..{to}"));
    cx.state();
    cx.step();
    cx.trace();
    match r {
        Ok(Ok(())) => {}
        r => return fail("shown: fails", format!("{source:?} {from}..{to}: {r:?}")),
    }
    // the line, the column and what is underlined
    let line = text[..from].iter().filter(|c| **c == '\n').count();
    let col = text[..from].iter().rev().take_while(|c| **c != '\n').count();
    let shown = source.split('\n').nth(line).unwrap().trim_end().replace('\t', " ");
    let under = if text[from..to].contains(&'\n') { 3 } else { (to - from).max(1) };
    let want = format!(
        "At dir/a.reds:{}:{}:\n{shown}\n{}{}\nthis variable is never used\n",
        line + 1,
        col + 1,
        " ".repeat(col),
        "^".repeat(under)
    );
    if out != want {
        return fail("shown", format!("{source:?} {from}..{to}\n  shown: {out:?}\n  expected: {want:?}"));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let _ = parser::parse_str("");
    ctx.explore("paths", |ch, cx| flow(ch, cx, if t { 5 } else { 4 }, 2, false));
    ctx.explore("branches and breaks", |ch, cx| flow(ch, cx, 4, if t { 2 } else { 1 }, true));
    ctx.explore("kinds of functions", functions);
    ctx.explore("locals", |ch, cx| locals(ch, cx, if t { 5 } else { 4 }, 2));
    ctx.explore("places of uses", |ch, cx| uses(ch, cx, if t { 2 } else { 1 }));
    ctx.explore("temporaries", |ch, cx| temporaries(ch, cx, if t { 2 } else { 1 }));
    ctx.explore("several definitions", |ch, cx| several(ch, cx, if t { 4 } else { 3 }));
    ctx.explore("how it is shown", |ch, cx| shown(ch, cx, if t { 6 } else { 5 }));
}
