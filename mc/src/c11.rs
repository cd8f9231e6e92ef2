//! C11 type names, operator names and source spans
use std::cmp::Ordering;
use std::str::FromStr;

use redscript::ast::{BinOp, Constant, Expr, Ident, Kind, Pos, Seq, SourceAst, Span, TypeName, UnOp};
use redscript::bytecode::IntrinsicOp;
use redscript::Ref;

use crate::ensure;
use crate::ex::{BINARY, UNARY};
use crate::util::{Chooser, Ctx, Cx, Fail};

#[derive(Clone, Debug, PartialEq, Eq)]
struct T {
    name: String,
    args: Vec<T>,
}

const LONG: &str = "gameuiInGameMenuGameControllerWithQuiteALongName";
/// longest name that is kept inline by a small string of 22 bytes, and one more
const EDGE: [&str; 3] = ["abcdefghijklmnopqrstu", "abcdefghijklmnopqrstuv", "abcdefghijklmnopqrstuvw"];

impl T {
    fn real(&self, how: usize) -> TypeName {
        let ident = match how {
            0 => Ident::from_ref(&self.name),
            _ => Ident::from_heap(Ref::from(self.name.as_str())),
        };
        if self.args.is_empty() && how == 1 {
            return TypeName::basic_owned(Ref::from(self.name.as_str()));
        }
        TypeName::new(ident, self.args.iter().map(|a| a.real(how)).collect())
    }
    fn repr(&self) -> String {
        let mut s = self.name.clone();
        for a in &self.args {
            s.push(':');
            s.push_str(&a.repr());
        }
        s
    }
    fn angle(&self, sep: &str) -> String {
        if self.args.is_empty() {
            return self.name.clone();
        }
        format!("{}<{}>", self.name, self.args.iter().map(|a| a.angle(sep)).collect::<Vec<_>>().join(sep))
    }
    /// without references
    fn bare(&self) -> T {
        match (self.name.as_str(), &self.args[..]) {
            ("ref" | "wref", [a]) => a.bare(),
            _ => T { name: self.name.clone(), args: self.args.iter().map(T::bare).collect() },
        }
    }
    fn chain(&self) -> bool {
        self.args.len() <= 1 && self.args.iter().all(T::chain)
    }
}

fn same(t: &TypeName, m: &T) -> bool {
    t.name().as_ref() == m.name && t.arguments().len() == m.args.len() && t.arguments().iter().zip(&m.args).all(|(a, b)| same(a, b))
}

fn check(m: &T, cx: &mut Cx) -> Result<(), Fail> {
    cx.case(|| m.angle(","));
    cx.sample(|| format!("{} {}", m.angle(", "), m.repr()));
    for how in 0..2 {
        let t = m.real(how);
        ensure!(same(&t, m), "{m:?} is built as {t:?}");
        ensure!(t.repr().as_ref() == m.repr(), "{m:?} is stored as {:?}", t.repr());
        ensure!(t.pretty().as_ref() == m.angle(", "), "{m:?} is written as {:?}", t.pretty());
        let bare = m.bare().angle(",");
        ensure!(t.mangled().as_ref() == bare, "{m:?} is named {:?} in functions, expected {bare:?}", t.mangled());
        ensure!(t.to_string() == bare, "{m:?} is displayed as {t}");
        ensure!(format!("[{t}]") == format!("[{bare}]"), "{m:?} is displayed as {t}");
        let kind = match t.kind() {
            Kind::Ref => "ref",
            Kind::WRef => "wref",
            Kind::ScriptRef => "script_ref",
            Kind::Array => "array",
            Kind::Prim => "",
        };
        let want = if ["ref", "wref", "script_ref", "array"].contains(&m.name.as_str()) { m.name.as_str() } else { "" };
        ensure!(kind == want, "{m:?} is of kind {kind:?}");
        if m.chain() {
            let back = TypeName::from_repr(&m.repr());
            ensure!(same(&back, m) && back == t, "{:?} is read back as {back:?}", m.repr());
        }
        ensure!(t == m.real(1 - how), "{m:?} is not equal to itself");
        cx.step();
        cx.trace();
    }
    cx.state();
    Ok(())
}

fn chains(ch: &mut Chooser, depth: usize, wraps: &[&str], bases: &[&str], cx: &mut Cx) -> Result<(), Fail> {
    let mut t = T { name: (*ch.of(bases)).to_owned(), args: vec![] };
    for _ in 0..depth {
        t = T { name: (*ch.of(wraps)).to_owned(), args: vec![t] };
    }
    check(&t, cx)
}

fn tree(ch: &mut Chooser, depth: usize, names: &[&str], max: usize) -> T {
    let name = (*ch.of(names)).to_owned();
    let n = if depth == 0 { 0 } else { ch.pick(max + 1) };
    T { name, args: (0..n).map(|_| tree(ch, depth - 1, names, max)).collect() }
}

fn pairs(ch: &mut Chooser, names: &[&str], depth: usize, max: usize, cx: &mut Cx) -> Result<(), Fail> {
    let a = tree(ch, depth, names, max);
    let b = tree(ch, depth, names, max);
    let (x, y) = (a.real(0), b.real(1));
    cx.step();
    cx.state();
    cx.trace();
    cx.case(|| format!("{} {}", a.angle(","), b.angle(",")));
    ensure!((x == y) == (a == b), "{a:?} == {b:?} is {}", x == y);
    ensure!((x.mangled() == y.mangled()) == (a.bare() == b.bare()), "{a:?} and {b:?} are named {:?} and {:?} in functions", x.mangled(), y.mangled());
    ensure!((x.pretty() == y.pretty()) == (a == b), "{a:?} and {b:?} are written {:?} and {:?}", x.pretty(), y.pretty());
    if a.chain() && b.chain() {
        ensure!((x.repr() == y.repr()) == (a == b), "{a:?} and {b:?} are stored as {:?} and {:?}", x.repr(), y.repr());
    }
    Ok(())
}

/// stored names as they come from a bundle
fn stored(ch: &mut Chooser, n: usize, cx: &mut Cx) -> Result<(), Fail> {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*ch.of(&[":", "a", "ref", "wref", "é", "<", " "]));
    }
    cx.case(|| s.clone());
    let t = TypeName::from_repr(&s);
    cx.step();
    cx.state();
    cx.trace();
    let mut at = &t;
    let parts: Vec<&str> = s.split(':').collect();
    for (i, p) in parts.iter().enumerate() {
        ensure!(at.name().as_ref() == *p, "part {i} of {s:?} is read as {:?}", at.name());
        let n = at.arguments().len();
        ensure!(n == usize::from(i + 1 < parts.len()), "part {i} of {s:?} has {n} arguments");
        if let [a] = at.arguments() {
            at = a;
        }
    }
    ensure!(t.repr().as_ref() == s, "{s:?} is stored again as {:?}", t.repr());
    Ok(())
}

const INTRINSICS: &[(&str, u8)] = &[
    ("Equals", 2),
    ("NotEquals", 2),
    ("ArrayClear", 1),
    ("ArraySize", 1),
    ("ArrayResize", 2),
    ("ArrayFindFirst", 2),
    ("ArrayFindLast", 2),
    ("ArrayContains", 2),
    ("ArrayCount", 2),
    ("ArrayPush", 2),
    ("ArrayPop", 1),
    ("ArrayInsert", 3),
    ("ArrayRemove", 2),
    ("ArrayGrow", 2),
    ("ArrayErase", 2),
    ("ArrayLast", 1),
    ("ArraySort", 1),
    ("ArraySortByPredicate", 2),
    ("ToString", 1),
    ("EnumInt", 1),
    ("IntEnum", 1),
    ("ToVariant", 1),
    ("FromVariant", 1),
    ("VariantIsRef", 1),
    ("VariantIsArray", 1),
    ("VariantTypeName", 1),
    ("AsRef", 1),
    ("Deref", 1),
    ("RefToWeakRef", 1),
    ("WeakRefToRef", 1),
    ("IsDefined", 1),
];

fn operators(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let all: Vec<(&str, u8)> = BINARY
        .iter()
        .map(|(n, _)| (*n, 20))
        .chain(UNARY.iter().map(|(n, _)| (*n, 10)))
        .chain(INTRINSICS.iter().copied())
        .chain(["", "Operator", "Add"].map(|n| (n, 99)))
        .collect();
    let (name, kind) = *ch.of(&all);
    // the name itself and names close to it
    let probe = match ch.pick(6) {
        0 => name.to_owned(),
        1 => name.to_lowercase(),
        2 => format!("{name} "),
        3 => name.chars().skip(1).collect(),
        4 => name.chars().take(name.chars().count().saturating_sub(1)).collect(),
        _ => format!("Operator{name}"),
    };
    cx.case(|| probe.clone());
    cx.step();
    cx.state();
    cx.trace();
    let known = all.iter().find(|(n, k)| *n == probe && *k != 99);
    let _ = kind;
    let bin = BinOp::from_str(&probe).ok();
    let un = UnOp::from_str(&probe).ok();
    let intr = IntrinsicOp::from_str(&probe).ok();
    let want = known.map_or((false, false, false), |(_, k)| (*k == 20, *k == 10, *k < 10));
    ensure!((bin.is_some(), un.is_some(), intr.is_some()) == want, "{probe:?} is read as {bin:?} {un:?} {intr:?}");
    if let Some(b) = bin {
        let s: &'static str = b.into();
        ensure!(s == probe && b.to_string() == probe, "{probe:?} is written as {s:?} / {b}");
    }
    if let Some(b) = un {
        let s: &'static str = b.into();
        ensure!(s == probe && b.to_string() == probe, "{probe:?} is written as {s:?} / {b}");
    }
    if let Some(b) = intr {
        let s: &'static str = b.into();
        ensure!(s == probe && b.to_string() == probe, "{probe:?} is written as {s:?} / {b}");
        let n = known.map_or(0, |k| k.1);
        ensure!(b.arg_count() == n, "{probe} takes {} arguments", b.arg_count());
    }
    Ok(())
}

/// the rank of each operator in the grammar, loosest first
fn level(sym: &str) -> usize {
    let levels: [&[&str]; 10] = [
        &["+=", "-=", "*=", "/=", "|=", "&="],
        &["||"],
        &["&&"],
        &["|"],
        &["^"],
        &["&"],
        &["==", "!="],
        &["<", "<=", ">", ">="],
        &["+", "-"],
        &["*", "/", "%"],
    ];
    levels.iter().position(|l| l.contains(&sym)).expect("harness: operator")
}

fn ranks(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (a, sa) = *ch.of(BINARY);
    let (b, sb) = *ch.of(BINARY);
    let (x, y) = (BinOp::from_str(a).map_err(|_| a)?, BinOp::from_str(b).map_err(|_| b)?);
    cx.case(|| format!("{a} {b}"));
    cx.step();
    cx.state();
    cx.trace();
    let tighter = level(sa) > level(sb);
    ensure!((x.precedence() < y.precedence()) == tighter, "the ranks of {sa} and {sb} are {} and {}", x.precedence(), y.precedence());
    // an operator that can stand on the left without parentheses
    if x.does_associate(y) {
        ensure!(tighter || (level(sa) == level(sb) && level(sa) > 0), "{sa} is said to associate with {sb}");
    }
    ensure!(x.does_associate(y) || !tighter, "{sa} is said not to associate with {sb}");
    Ok(())
}

fn spans(ch: &mut Chooser, points: &[usize], cx: &mut Cx) -> Result<(), Fail> {
    let mut p = |_| *ch.of(points);
    let (a, b, c, d, e) = (p(0), p(1), p(2), p(3), p(4));
    let s = Span::new(Pos::new(a), Pos::new(b));
    let t = Span::new(Pos::new(c), Pos::new(d));
    let pos = Pos::new(e);
    cx.case(|| format!("{s:?} {t:?} {pos:?}"));
    cx.step();
    cx.state();
    cx.trace();
    let m = s.merge(t);
    ensure!(m == Span::new(Pos::new(a.min(c)), Pos::new(b.max(d))), "{s:?} and {t:?} merge to {m:?}");
    ensure!(t.merge(s) == m, "{t:?} and {s:?} merge to {:?}", t.merge(s));
    ensure!(s.contains(pos) == (a <= e && e < b), "{s:?} contains {pos:?}: {}", s.contains(pos));
    if a <= b {
        let o = if e < a {
            Ordering::Greater
        } else if e > b {
            Ordering::Less
        } else {
            Ordering::Equal
        };
        ensure!(s.compare_pos(pos) == o, "{s:?} against {pos:?}: {:?}", s.compare_pos(pos));
    }
    ensure!((s == t) == (a == c && b == d), "{s:?} == {t:?} is {}", s == t);
    ensure!(usize::from(pos) == e && pos.to_string() == e.to_string(), "{e} is kept as {pos}");
    ensure!(usize::from(pos + a) == e + a, "{e} + {a} is {}", pos + a);
    if a <= e {
        ensure!(usize::from(pos - a) == e - a, "{e} - {a} is {}", pos - a);
    }
    ensure!(pos.cmp(&Pos::new(a)) == e.cmp(&a), "{e} and {a} compare as {:?}", pos.cmp(&Pos::new(a)));
    Ok(())
}

fn expr(ch: &mut Chooser, depth: usize) -> (Expr<SourceAst>, Option<(usize, usize)>, bool) {
    // the expression, its span, whether it is empty
    let n = if depth == 0 { ch.pick(4) } else { ch.pick(8) };
    let at = |n: usize| Span::new(Pos::new(n * 10), Pos::new(n * 10 + 7));
    match n {
        0 => (Expr::EMPTY, Some((0, 0)), true),
        1 => (Expr::Null(at(1)), Some((10, 17)), false),
        2 => (Expr::Constant(Constant::I32(1), at(3)), Some((30, 37)), false),
        3 => (Expr::Ident(Ident::from_static("x"), at(2)), Some((20, 27)), false),
        k => {
            let n = k - 4;
            let parts: Vec<_> = (0..n).map(|_| expr(ch, depth - 1)).collect();
            let empty = parts.iter().all(|p| p.2);
            let span = match (parts.first().map_or(Some((0, 0)), |p| p.1), parts.last().map_or(Some((0, 0)), |p| p.1)) {
                (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))),
                _ => None,
            };
            (Expr::Seq(Seq::new(parts.into_iter().map(|p| p.0).collect())), span, empty)
        }
    }
}

fn sequences(ch: &mut Chooser, depth: usize, cx: &mut Cx) -> Result<(), Fail> {
    let (e, span, empty) = expr(ch, depth);
    cx.step();
    cx.state();
    cx.trace();
    ensure!(e.is_empty() == empty, "{e:?} is empty: {}", e.is_empty());
    let s = e.span();
    if let Some((a, b)) = span {
        ensure!(s == Span::new(Pos::new(a), Pos::new(b)), "the span of {e:?} is {s:?}");
    }
    Ok(())
}

fn constants(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (t, n) = match ch.pick(17) {
        0 => (TypeName::BOOL, "Bool"),
        1 => (TypeName::CNAME, "CName"),
        2 => (TypeName::DOUBLE, "Double"),
        3 => (TypeName::FLOAT, "Float"),
        4 => (TypeName::INT16, "Int16"),
        5 => (TypeName::INT32, "Int32"),
        6 => (TypeName::INT64, "Int64"),
        7 => (TypeName::INT8, "Int8"),
        8 => (TypeName::RESOURCE, "ResRef"),
        9 => (TypeName::STRING, "String"),
        10 => (TypeName::TWEAKDB_ID, "TweakDBID"),
        11 => (TypeName::UINT16, "Uint16"),
        12 => (TypeName::UINT32, "Uint32"),
        13 => (TypeName::UINT64, "Uint64"),
        14 => (TypeName::UINT8, "Uint8"),
        15 => (TypeName::VARIANT, "Variant"),
        _ => (TypeName::VOID, "Void"),
    };
    cx.step();
    cx.state();
    cx.trace();
    ensure!(t.repr().as_ref() == n && t.pretty().as_ref() == n && t == TypeName::from_repr(n) && t == TypeName::new(Ident::from_ref(n), vec![]), "{n} is {t:?}");
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let k = usize::from(th);
    let wraps = ["ref", "wref", "script_ref", "array", "refs", LONG];
    let bases = ["Int32", "A", "ref", "array", "", LONG, EDGE[0], EDGE[1], EDGE[2], "é", "a.b"];
    for d in 0..6 + k {
        ctx.explore(&format!("types {d} deep"), |ch, cx| chains(ch, d, &wraps, &bases, cx));
    }
    ctx.explore("types with several arguments", |ch, cx| {
        let t = tree(ch, 2, &["ref", "wref", "array", "A", "script_ref"][..4 + k], 2);
        check(&t, cx)
    });
    ctx.explore("types with three arguments", |ch, cx| {
        let t = tree(ch, 1, &["ref", "wref", "array", "A", LONG], 3);
        check(&t, cx)
    });
    ctx.explore("pairs of types", |ch, cx| pairs(ch, &["ref", "wref", "array", "script_ref", "A", "B"], 2, 1, cx));
    ctx.explore("pairs of types with arguments", |ch, cx| pairs(ch, &["ref", "wref", "A", "B"][..3 + k], 1 + k, 2, cx));
    for n in 0..6 + k {
        ctx.explore(&format!("stored names of {n} parts"), |ch, cx| stored(ch, n, cx));
    }
    ctx.explore("built-in types", constants);
    ctx.explore("operators and intrinsics", operators);
    ctx.explore("ranks of operators", ranks);
    let mut points = vec![0usize, 1, 2, 3, 7];
    if th {
        points.extend([4, 5, 6]);
    }
    ctx.explore("spans", |ch, cx| spans(ch, &points, cx));
    ctx.explore("far spans", |ch, cx| spans(ch, &[0, 65535, 65536, 1 << 30, (1 << 31) - 1], cx));
    ctx.explore("sequences", |ch, cx| sequences(ch, 2 + k, cx));
}
