//! C32: how source text is read: an own reader of the grammar against the parser.
use redscript::ast::{BinOp, Constant, Expr, Literal, Pos, Seq, SourceAst, Span, TypeName, UnOp};
use redscript_compiler::parser::{
    self, Annotation, AnnotationKind, ClassSource, Declaration, FieldSource, FunctionSource, MemberSource, Qualifier, Qualifiers, SourceEntry, SourceModule,
};
use redscript_compiler::source_map::Files;
use redscript_compiler::symbol::Import;

use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};

// ---------------------------------------------------------------- what the parser made of a text

fn ty(t: &TypeName) -> String {
    let args: Vec<String> = t.arguments().iter().map(ty).collect();
    if args.is_empty() {
        t.name().to_string()
    } else {
        format!("{}<{}>", t.name(), args.join(","))
    }
}

fn cons(c: &Constant) -> String {
    match c {
        Constant::String(l, s) => {
            let l = match l {
                Literal::String => "",
                Literal::Name => "n",
                Literal::Resource => "r",
                Literal::TweakDbId => "t",
            };
            format!("{l}{s:?}")
        }
        Constant::F32(x) => format!("F32:{:08x}", x.to_bits()),
        Constant::F64(x) => format!("F64:{:016x}", x.to_bits()),
        Constant::I32(x) => format!("I32:{x}"),
        Constant::I64(x) => format!("I64:{x}"),
        Constant::U32(x) => format!("U32:{x}"),
        Constant::U64(x) => format!("U64:{x}"),
        Constant::Bool(x) => format!("{x}"),
    }
}

fn list(xs: &[Expr<SourceAst>]) -> String {
    xs.iter().map(|x| format!(" {}", ex(x))).collect()
}

fn op(o: BinOp) -> &'static str {
    match o {
        BinOp::AssignAdd => "+=",
        BinOp::AssignSubtract => "-=",
        BinOp::AssignMultiply => "*=",
        BinOp::AssignDivide => "/=",
        BinOp::AssignOr => "|=",
        BinOp::AssignAnd => "&=",
        BinOp::LogicOr => "||",
        BinOp::LogicAnd => "&&",
        BinOp::Or => "|",
        BinOp::Xor => "^",
        BinOp::And => "&",
        BinOp::Equal => "==",
        BinOp::NotEqual => "!=",
        BinOp::Less => "<",
        BinOp::LessEqual => "<=",
        BinOp::Greater => ">",
        BinOp::GreaterEqual => ">=",
        BinOp::Add => "+",
        BinOp::Subtract => "-",
        BinOp::Multiply => "*",
        BinOp::Divide => "/",
        BinOp::Modulo => "%",
    }
}

fn seq(s: &Seq<SourceAst>) -> String {
    format!("{{{}}}", s.exprs.iter().map(ex).collect::<Vec<_>>().join(" "))
}

fn ex(e: &Expr<SourceAst>) -> String {
    match e {
        Expr::Ident(i, _) => i.to_string(),
        Expr::Constant(c, _) => cons(c),
        Expr::ArrayLit(xs, _, _) => format!("(array{})", list(xs)),
        Expr::InterpolatedString(p, parts, _) => {
            let parts: String = parts.iter().map(|(e, s)| format!(" {} {:?}", ex(e), &**s)).collect();
            format!("(text {:?}{parts})", &**p)
        }
        Expr::Declare(n, t, v, _) => format!(
            "(let {n} {} {})",
            t.as_ref().map_or("-".into(), |t| ty(t)),
            v.as_ref().map_or("-".into(), |v| ex(v))
        ),
        Expr::Cast(t, e, _) => format!("(as {} {})", ex(e), ty(t)),
        Expr::Assign(a, b, _) => format!("(= {} {})", ex(a), ex(b)),
        Expr::Call(n, ts, xs, _) => format!("(call {n}<{}>{})", ts.iter().map(ty).collect::<Vec<_>>().join(","), list(xs)),
        Expr::MethodCall(e, n, xs, _) => format!("(method {} {n}{})", ex(e), list(xs)),
        Expr::Member(e, n, _) => format!("(. {} {n})", ex(e)),
        Expr::ArrayElem(a, i, _) => format!("(at {} {})", ex(a), ex(i)),
        Expr::New(t, xs, _) => format!("(new {}{})", ty(t), list(xs)),
        Expr::Return(v, _) => format!("(return {})", v.as_ref().map_or("-".into(), |v| ex(v))),
        Expr::Seq(s) => seq(s),
        Expr::Switch(m, cases, d, _) => format!(
            "(switch {}{} {})",
            ex(m),
            cases.iter().map(|c| format!(" {}:{}", ex(&c.matcher), seq(&c.body))).collect::<String>(),
            d.as_ref().map_or("-".into(), seq)
        ),
        Expr::Goto(..) => "(goto)".into(),
        Expr::If(c, a, b, _) => format!("(if {} {} {})", ex(c), seq(a), b.as_ref().map_or("-".into(), seq)),
        Expr::Conditional(c, a, b, _) => format!("(? {} {} {})", ex(c), ex(a), ex(b)),
        Expr::While(c, b, _) => format!("(while {} {})", ex(c), seq(b)),
        Expr::ForIn(n, a, b, _) => format!("(for {n} {} {})", ex(a), seq(b)),
        Expr::BinOp(a, b, o, _) => format!("({} {} {})", op(*o), ex(a), ex(b)),
        Expr::UnOp(e, o, _) => format!(
            "({} {})",
            match o {
                UnOp::BitNot => "~1",
                UnOp::LogicNot => "!1",
                UnOp::Neg => "-1",
            },
            ex(e)
        ),
        Expr::This(_) => "THIS".into(),
        Expr::Super(_) => "SUPER".into(),
        Expr::Break(_) => "BREAK".into(),
        Expr::Null(_) => "NULL".into(),
    }
}

const QUALIFIERS: [(&str, Qualifier); 15] = [
    ("public", Qualifier::Public),
    ("protected", Qualifier::Protected),
    ("private", Qualifier::Private),
    ("abstract", Qualifier::Abstract),
    ("static", Qualifier::Static),
    ("final", Qualifier::Final),
    ("const", Qualifier::Const),
    ("native", Qualifier::Native),
    ("exec", Qualifier::Exec),
    ("cb", Qualifier::Callback),
    ("out", Qualifier::Out),
    ("opt", Qualifier::Optional),
    ("quest", Qualifier::Quest),
    ("importonly", Qualifier::ImportOnly),
    ("persistent", Qualifier::Persistent),
];

fn quals(q: &Qualifiers) -> String {
    let all = QUALIFIERS.iter();
    let own: Vec<&str> = all
        .filter(|(_, k)| match k {
            Qualifier::Public => q.contain(Qualifier::Public),
            Qualifier::Protected => q.contain(Qualifier::Protected),
            Qualifier::Private => q.contain(Qualifier::Private),
            Qualifier::Abstract => q.contain(Qualifier::Abstract),
            Qualifier::Static => q.contain(Qualifier::Static),
            Qualifier::Final => q.contain(Qualifier::Final),
            Qualifier::Const => q.contain(Qualifier::Const),
            Qualifier::Native => q.contain(Qualifier::Native),
            Qualifier::Exec => q.contain(Qualifier::Exec),
            Qualifier::Callback => q.contain(Qualifier::Callback),
            Qualifier::Out => q.contain(Qualifier::Out),
            Qualifier::Optional => q.contain(Qualifier::Optional),
            Qualifier::Quest => q.contain(Qualifier::Quest),
            Qualifier::ImportOnly => q.contain(Qualifier::ImportOnly),
            Qualifier::Persistent => q.contain(Qualifier::Persistent),
        })
        .map(|(n, _)| *n)
        .collect();
    own.join("+")
}

const ANNOTATIONS: [(&str, AnnotationKind); 7] = [
    ("replaceMethod", AnnotationKind::ReplaceMethod),
    ("wrapMethod", AnnotationKind::WrapMethod),
    ("replaceGlobal", AnnotationKind::ReplaceGlobal),
    ("addMethod", AnnotationKind::AddMethod),
    ("addField", AnnotationKind::AddField),
    ("if", AnnotationKind::If),
    ("runtimeProperty", AnnotationKind::RuntimeProperty),
];

fn anns(xs: &[Annotation]) -> String {
    xs.iter()
        .map(|a| {
            let n = ANNOTATIONS.iter().find(|(_, k)| *k == a.kind).map_or("?", |x| x.0);
            format!("@{n}({})", list(&a.args))
        })
        .collect()
}

fn decl(d: &Declaration) -> String {
    format!("{}[{}]{}", anns(&d.annotations), quals(&d.qualifiers), d.name)
}

fn field(f: &FieldSource) -> String {
    format!("(field {} {} {})", decl(&f.declaration), ty(&f.type_), f.default.as_ref().map_or("-".into(), ex))
}

fn func(f: &FunctionSource) -> String {
    let ps: String = f.parameters.iter().map(|p| format!(" [{}]{}:{}", quals(&p.qualifiers), p.name, ty(&p.type_))).collect();
    format!(
        "(func {} ({ps}) {} {})",
        decl(&f.declaration),
        f.type_.as_ref().map_or("-".into(), ty),
        f.body.as_ref().map_or("-".into(), seq)
    )
}

fn class(k: &str, c: &ClassSource) -> String {
    let ms: String = c
        .members
        .iter()
        .map(|m| {
            " ".to_owned()
                + &match m {
                    MemberSource::Function(f) => func(f),
                    MemberSource::Field(f) => field(f),
                }
        })
        .collect();
    format!("({k} {} {}{ms})", decl(&c.declaration), c.base.as_ref().map_or("-".into(), ToString::to_string))
}

fn module(m: &SourceModule) -> String {
    let mut o = format!("(module {}", m.path.as_ref().map_or("-".into(), |p| p.render().to_string()));
    for i in &m.imports {
        o += &match i {
            Import::Exact(a, p, _) => format!(" (import {}{})", anns(a), p.render()),
            Import::Selected(a, p, ns, _) => {
                let ns: Vec<String> = ns.iter().map(ToString::to_string).collect();
                format!(" (import {}{} {{{}}})", anns(a), p.render(), ns.join(","))
            }
            Import::All(a, p, _) => format!(" (import {}{} *)", anns(a), p.render()),
        };
    }
    for e in &m.entries {
        o.push(' ');
        o += &match e {
            SourceEntry::Class(c) => class("class", c),
            SourceEntry::Struct(c) => class("struct", c),
            SourceEntry::Function(f) => func(f),
            SourceEntry::GlobalLet(f) => field(f),
            SourceEntry::Enum(e) => {
                let ms: Vec<String> = e.members.iter().map(|m| format!("{}={}", m.name, m.value)).collect();
                format!("(enum {} {})", decl(&e.declaration), ms.join(","))
            }
        };
    }
    o + ")"
}

// ---------------------------------------------------------------- the places of what was read

/// every construct is where it says it is: inside of what it is a part of, after its older siblings,
/// and written with the words it is written with
struct Places<'a> {
    text: &'a str,
    base: usize,
}

type Lost = Result<(), String>;

impl Places<'_> {
    fn slice(&self, s: Span, what: &dyn Fn() -> String) -> Result<(usize, usize, &str), String> {
        let (low, high) = (usize::from(s.low), usize::from(s.high));
        let t = low.checked_sub(self.base).zip(high.checked_sub(self.base)).and_then(|(a, b)| self.text.get(a..b));
        t.map(|t| (low, high, t)).ok_or_else(|| format!("{} at {low}..{high} of {}..", what(), self.base))
    }

    /// the span lies in the outer one, and its text begins and ends as given
    fn at(&self, s: Span, outer: Span, begins: &str, ends: &str, what: &dyn Fn() -> String) -> Lost {
        let (_, _, t) = self.slice(s, what)?;
        if s.low < outer.low || s.high > outer.high {
            return Err(format!("{} is {t:?}, which is not in {:?}", what(), self.slice(outer, what)?.2));
        }
        if !t.starts_with(begins) || !t.ends_with(ends) {
            return Err(format!("{} is {t:?}", what()));
        }
        Ok(())
    }

    fn seq(&self, s: &Seq<SourceAst>, outer: Span) -> Lost {
        self.list(s.exprs.iter(), outer)
    }

    fn list<'e>(&self, xs: impl Iterator<Item = &'e Expr<SourceAst>>, outer: Span) -> Lost {
        let mut low = outer.low;
        for x in xs {
            self.expr(x, Span::new(low, outer.high))?;
            low = x.span().high;
        }
        Ok(())
    }

    fn expr(&self, e: &Expr<SourceAst>, outer: Span) -> Lost {
        let s = e.span();
        let what = || ex(e);
        let (begins, ends) = match e {
            Expr::Ident(n, _) => (n.as_ref(), n.as_ref()),
            Expr::Constant(Constant::String(l, _), _) => (
                match l {
                    Literal::String => "\"",
                    Literal::Name => "n\"",
                    Literal::Resource => "r\"",
                    Literal::TweakDbId => "t\"",
                },
                "\"",
            ),
            Expr::Constant(Constant::Bool(true), _) => ("true", "true"),
            Expr::Constant(Constant::Bool(false), _) => ("false", "false"),
            Expr::ArrayLit(..) => ("[", "]"),
            Expr::InterpolatedString(..) => ("s\"", "\""),
            Expr::Declare(..) => ("let", ";"),
            Expr::Call(n, ..) => (n.as_ref(), ")"),
            Expr::MethodCall(..) => ("", ")"),
            Expr::Member(_, n, _) => ("", n.as_ref()),
            Expr::ArrayElem(..) => ("", "]"),
            Expr::New(..) => ("new", ")"),
            Expr::Break(_) => ("break", ";"),
            Expr::If(..) => ("if", ""),
            Expr::While(..) => ("while", ""),
            Expr::ForIn(..) => ("for", ""),
            Expr::Switch(..) => ("switch", ""),
            Expr::This(_) => ("this", "this"),
            Expr::Super(_) => ("super", "super"),
            Expr::Null(_) => ("null", "null"),
            _ => ("", ""),
        };
        self.at(s, outer, begins, ends, &what)?;
        if matches!(e, Expr::Ident(..) | Expr::This(_) | Expr::Super(_) | Expr::Null(_) | Expr::Constant(Constant::Bool(_), _)) && self.slice(s, &what)?.2 != begins {
            return Err(format!("{} is {:?}", ex(e), self.slice(s, &what)?.2));
        }
        if let Expr::Constant(c, _) = e {
            let t = self.slice(s, &what)?.2;
            if !matches!(c, Constant::String(..) | Constant::Bool(_)) && number(t.strip_prefix('-').unwrap_or(t)).is_none() {
                return Err(format!("{} is {t:?}", ex(e)));
            }
        }
        match e {
            Expr::Ident(..) | Expr::Constant(..) | Expr::Break(_) | Expr::Goto(..) | Expr::This(_) | Expr::Super(_) | Expr::Null(_) => Ok(()),
            Expr::ArrayLit(xs, ..) | Expr::Call(_, _, xs, _) | Expr::New(_, xs, _) => self.list(xs.iter(), s),
            Expr::InterpolatedString(_, xs, _) => self.list(xs.iter().map(|x| &x.0), s),
            Expr::Declare(_, _, v, _) => self.list(v.iter().map(|x| &**x), s),
            Expr::Cast(_, x, _) | Expr::Member(x, ..) | Expr::UnOp(x, ..) => self.expr(x, s),
            Expr::Assign(a, b, _) | Expr::ArrayElem(a, b, _) | Expr::BinOp(a, b, ..) => self.list([&**a, &**b].into_iter(), s),
            Expr::MethodCall(a, _, xs, _) => self.list(std::iter::once(&**a).chain(xs.iter()), s),
            Expr::Return(v, _) => self.list(v.iter().map(|x| &**x), s),
            Expr::Seq(q) => self.seq(q, outer),
            Expr::Switch(m, cases, d, _) => {
                let xs = cases.iter().flat_map(|c| std::iter::once(&c.matcher).chain(&c.body.exprs));
                self.list(std::iter::once(&**m).chain(xs).chain(d.iter().flat_map(|d| &d.exprs)), s)
            }
            Expr::If(c, a, b, _) => self.list(std::iter::once(&**c).chain(&a.exprs).chain(b.iter().flat_map(|b| &b.exprs)), s),
            Expr::Conditional(a, b, c, _) => self.list([&**a, &**b, &**c].into_iter(), s),
            Expr::While(c, b, _) | Expr::ForIn(_, c, b, _) => self.list(std::iter::once(&**c).chain(&b.exprs), s),
        }
    }

    fn anns(&self, xs: &[Annotation], outer: Span) -> Lost {
        for a in xs {
            self.at(a.span, outer, "@", ")", &|| "an annotation".into())?;
            self.list(a.args.iter(), a.span)?;
        }
        Ok(())
    }

    fn decl(&self, d: &Declaration, outer: Span) -> Lost {
        self.at(d.span, outer, "", &d.name, &|| format!("the declaration of {}", d.name))?;
        self.anns(&d.annotations, d.span)
    }

    fn func(&self, f: &FunctionSource, outer: Span) -> Lost {
        self.at(f.span, outer, "", "", &|| format!("the function {}", f.declaration.name))?;
        self.decl(&f.declaration, f.span)?;
        f.body.as_ref().map_or(Ok(()), |b| self.seq(b, Span::new(f.declaration.span.high, f.span.high)))
    }

    fn field(&self, f: &FieldSource, outer: Span) -> Lost {
        self.decl(&f.declaration, outer)?;
        self.list(f.default.iter(), Span::new(f.declaration.span.high, outer.high))
    }

    fn class(&self, c: &ClassSource, outer: Span) -> Lost {
        self.at(c.span, outer, "", "}", &|| format!("the class {}", c.declaration.name))?;
        self.decl(&c.declaration, c.span)?;
        let mut low = c.declaration.span.high;
        for m in &c.members {
            let inner = Span::new(low, c.span.high);
            low = match m {
                MemberSource::Function(f) => {
                    self.func(f, inner)?;
                    f.span.high
                }
                MemberSource::Field(f) => {
                    self.field(f, inner)?;
                    f.declaration.span.high
                }
            };
        }
        Ok(())
    }

    fn module(&self, m: &SourceModule) -> Lost {
        let all = Span::new(Pos::new(self.base), Pos::new(self.base + self.text.len()));
        let mut low = all.low;
        for i in &m.imports {
            let (Import::Exact(a, _, s) | Import::Selected(a, _, _, s) | Import::All(a, _, s)) = i;
            self.at(*s, Span::new(low, all.high), "", "", &|| "an import".into())?;
            self.anns(a, *s)?;
            low = s.high;
        }
        for e in &m.entries {
            let rest = Span::new(low, all.high);
            low = match e {
                SourceEntry::Class(c) | SourceEntry::Struct(c) => {
                    self.class(c, rest)?;
                    c.span.high
                }
                SourceEntry::Function(f) => {
                    self.func(f, rest)?;
                    f.span.high
                }
                SourceEntry::GlobalLet(f) => {
                    self.field(f, rest)?;
                    f.declaration.span.high
                }
                SourceEntry::Enum(e) => {
                    self.at(e.span, rest, "", "}", &|| format!("the enum {}", e.declaration.name))?;
                    self.decl(&e.declaration, e.span)?;
                    e.span.high
                }
            };
        }
        Ok(())
    }
}

/// the file before the one that is read
const BEFORE: &str = "// é\n//";

/// what the parser makes of a text: none if it refuses it
fn parse(text: &str) -> Result<Option<String>, Fail> {
    let mut files = Files::new();
    files.add("a.reds".into(), BEFORE.into());
    files.add("b.reds".into(), text.to_owned());
    let file = files.files().nth(1).unwrap();
    match guarded(|| parser::parse_file(file)) {
        Err(p) => fail("panic", format!("{text}\n  panicked: {p}")),
        Ok(Ok(m)) => {
            let places = Places { text, base: BEFORE.len() + 1 };
            if let Err(e) = places.module(&m) {
                return fail("place", format!("{text}\n  {e}"));
            }
            Ok(Some(module(&m)))
        }
        Ok(Err(e)) => {
            // the place of the error is one in the text
            let lines: Vec<&str> = text.split('\n').collect();
            let l = &e.location;
            let inside = l.offset <= text.len()
                && text.is_char_boundary(l.offset)
                && lines.get(l.line - 1).is_some_and(|s| l.column >= 1 && l.column <= s.chars().count() + 1);
            if !inside {
                return fail("place of the error", format!("{text}\n  the error is at {:?}", e.location));
            }
            Ok(None)
        }
    }
}

fn compare(text: &str, want: Option<&str>) -> Result<(), Fail> {
    let got = parse(text)?;
    match (&got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) if g == w => Ok(()),
        (g, w) => {
            let key = match (g, w) {
                (None, _) => "refused",
                (_, None) => "accepted",
                _ => "read otherwise",
            };
            fail(key, format!("{text}\n  read as  {}\n  expected {}", g.as_deref().unwrap_or("an error"), w.unwrap_or("an error")))
        }
    }
}

// ---------------------------------------------------------------- an own reader

/// reads a list of words; the words are separated by blanks in the text
struct Reader<'a> {
    w: &'a [&'a str],
    i: usize,
    /// a path of no names was met: the parser may take it for one
    nameless: bool,
}

fn is_name(w: &str) -> bool {
    let mut c = w.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

const LEVELS: [&[&str]; 9] = [
    &["||"],
    &["&&"],
    &["|"],
    &["^"],
    &["&"],
    &["==", "!="],
    &["<", "<=", ">", ">="],
    &["+", "-"],
    &["*", "/", "%"],
];
const ASSIGN: [&str; 7] = ["=", "+=", "-=", "*=", "/=", "|=", "&="];

impl<'a> Reader<'a> {
    fn peek(&self) -> &'a str {
        self.w.get(self.i).copied().unwrap_or("")
    }
    fn word(&mut self, s: &str) -> Option<()> {
        if self.peek() == s && self.i < self.w.len() {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<T> {
        let at = self.i;
        let r = f(self);
        if r.is_none() {
            self.i = at;
        }
        r
    }
    fn name(&mut self) -> Option<String> {
        let w = self.peek();
        if is_name(w) {
            self.i += 1;
            Some(w.to_owned())
        } else {
            None
        }
    }
    fn many<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>) -> Vec<T> {
        let mut v = vec![];
        while let Some(x) = self.attempt(&f) {
            v.push(x);
        }
        v
    }
    fn comma<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>) -> Vec<T> {
        let mut v = vec![];
        while let Some(x) = self.attempt(|r| {
            if !v.is_empty() {
                r.word(",")?;
            }
            f(r)
        }) {
            v.push(x);
        }
        v
    }

    /// a type is one word
    fn ty(&mut self) -> Option<String> {
        let w = self.peek();
        let head = w.split('<').next()?;
        if is_name(head) && (head == w || w.ends_with('>')) {
            self.i += 1;
            Some(w.to_owned())
        } else {
            None
        }
    }

    fn args(&mut self) -> Option<String> {
        self.word("(")?;
        let xs = self.comma(|r| r.expr(0));
        self.word(")")?;
        Some(xs.iter().map(|x| format!(" {x}")).collect())
    }

    fn primary(&mut self) -> Option<String> {
        let w = self.peek();
        match w {
            "!" | "~" | "-" => {
                if let Some(x) = self.attempt(|r| {
                    r.i += 1;
                    r.expr(10)
                }) {
                    return Some(format!("({w}1 {x})"));
                }
                return None;
            }
            "new" => {
                if let Some(x) = self.attempt(|r| {
                    r.i += 1;
                    let n = r.name()?;
                    Some(format!("(new {n}{})", r.args()?))
                }) {
                    return Some(x);
                }
            }
            "[" => {
                return self.attempt(|r| {
                    r.i += 1;
                    let xs = r.comma(|r| r.expr(0));
                    r.word("]")?;
                    Some(format!("(array{})", xs.iter().map(|x| format!(" {x}")).collect::<String>()))
                })
            }
            "(" => {
                return self.attempt(|r| {
                    r.i += 1;
                    let x = r.expr(0)?;
                    r.word(")")?;
                    Some(x)
                })
            }
            "null" | "this" | "super" => {
                self.i += 1;
                return Some(w.to_uppercase());
            }
            "true" | "false" => {
                self.i += 1;
                return Some(w.to_owned());
            }
            "1" => {
                self.i += 1;
                return Some("I32:1".into());
            }
            "\"s\"" => {
                self.i += 1;
                return Some(w.into());
            }
            "s\"a\\(x)b\"" => {
                self.i += 1;
                return Some("(text \"a\" x \"b\")".into());
            }
            _ => {}
        }
        // a call, with types or without
        if let Some(x) = self.attempt(|r| {
            let n = r.name()?;
            let ts = r
                .attempt(|r| {
                    r.word("<")?;
                    let ts = r.comma(Self::ty);
                    r.word(">")?;
                    Some(ts.join(","))
                })
                .unwrap_or_default();
            Some(format!("(call {n}<{ts}>{})", r.args()?))
        }) {
            return Some(x);
        }
        self.name()
    }

    fn expr(&mut self, min: usize) -> Option<String> {
        let mut left = self.primary()?;
        loop {
            let w = self.peek();
            let next = match w {
                "?" if min == 0 => self.attempt(|r| {
                    r.i += 1;
                    let y = r.expr(0)?;
                    r.word(":")?;
                    let z = r.expr(0)?;
                    Some(format!("(? {left} {y} {z})"))
                }),
                _ if min == 0 && ASSIGN.contains(&w) => self.attempt(|r| {
                    r.i += 1;
                    let y = r.expr(0)?;
                    Some(format!("({w} {left} {y})"))
                }),
                "[" => self.attempt(|r| {
                    r.i += 1;
                    let y = r.expr(0)?;
                    r.word("]")?;
                    Some(format!("(at {left} {y})"))
                }),
                "." => self
                    .attempt(|r| {
                        r.i += 1;
                        let n = r.name()?;
                        Some(format!("(method {left} {n}{})", r.args()?))
                    })
                    .or_else(|| {
                        self.attempt(|r| {
                            r.i += 1;
                            let n = r.name()?;
                            Some(format!("(. {left} {n})"))
                        })
                    }),
                "as" => self.attempt(|r| {
                    r.i += 1;
                    let t = r.ty()?;
                    Some(format!("(as {left} {t})"))
                }),
                _ => match LEVELS.iter().position(|l| l.contains(&w)) {
                    Some(l) if l + 1 >= min => self.attempt(|r| {
                        r.i += 1;
                        let y = r.expr(l + 2)?;
                        Some(format!("({w} {left} {y})"))
                    }),
                    _ => None,
                },
            };
            match next {
                Some(x) => left = x,
                None => return Some(left),
            }
        }
    }

    fn seq(&mut self) -> String {
        format!("{{{}}}", self.many(Self::stmt).join(" "))
    }
    fn block(&mut self) -> Option<String> {
        self.word("{")?;
        let s = self.seq();
        self.word("}")?;
        Some(s)
    }
    fn branch(&mut self) -> Option<String> {
        self.word("if")?;
        let c = self.expr(0)?;
        let a = self.block()?;
        let b = self
            .attempt(|r| {
                r.word("else")?;
                r.block()
            })
            .or_else(|| {
                self.attempt(|r| {
                    r.word("else")?;
                    Some(format!("{{{}}}", r.branch()?))
                })
            });
        self.word(";");
        Some(format!("(if {c} {a} {})", b.unwrap_or("-".into())))
    }

    fn stmt(&mut self) -> Option<String> {
        let w = self.peek();
        let special = match w {
            "while" => self.attempt(|r| {
                r.i += 1;
                let c = r.expr(0)?;
                let b = r.block()?;
                r.word(";");
                Some(format!("(while {c} {b})"))
            }),
            "for" => self.attempt(|r| {
                r.i += 1;
                let n = r.name()?;
                r.word("in")?;
                let a = r.expr(0)?;
                let b = r.block()?;
                r.word(";");
                Some(format!("(for {n} {a} {b})"))
            }),
            "if" => self.attempt(Self::branch),
            "switch" => self.attempt(|r| {
                r.i += 1;
                let m = r.expr(0)?;
                r.word("{")?;
                let cases = r.many(|r| {
                    r.word("case")?;
                    let m = r.expr(0)?;
                    r.word(":")?;
                    Some(format!(" {m}:{}", r.seq()))
                });
                let d = r.attempt(|r| {
                    r.word("default")?;
                    r.word(":")?;
                    Some(r.seq())
                });
                r.word("}")?;
                r.word(";");
                Some(format!("(switch {m}{} {})", cases.concat(), d.unwrap_or("-".into())))
            }),
            "return" => self.attempt(|r| {
                r.i += 1;
                let v = r.attempt(|r| r.expr(0));
                r.word(";")?;
                Some(format!("(return {})", v.unwrap_or("-".into())))
            }),
            "break" => self.attempt(|r| {
                r.i += 1;
                r.word(";")?;
                Some("BREAK".into())
            }),
            "let" => self.attempt(|r| {
                r.i += 1;
                let n = r.name()?;
                let t = r.attempt(|r| {
                    r.word(":")?;
                    r.ty()
                });
                let v = r.attempt(|r| {
                    r.word("=")?;
                    r.expr(0)
                });
                r.word(";")?;
                Some(format!("(let {n} {} {})", t.unwrap_or("-".into()), v.unwrap_or("-".into())))
            }),
            _ => None,
        };
        special.or_else(|| {
            self.attempt(|r| {
                let x = r.expr(0)?;
                r.word(";")?;
                Some(x)
            })
        })
    }

    fn annotation(&mut self) -> Option<String> {
        let w = self.peek().strip_prefix('@')?;
        if !ANNOTATIONS.iter().any(|a| a.0 == w) {
            return None;
        }
        self.i += 1;
        Some(format!("@{w}({})", self.args()?))
    }
    fn quals(&mut self) -> String {
        let qs = self.many(|r| {
            let w = r.peek();
            QUALIFIERS.iter().any(|q| q.0 == w).then(|| {
                r.i += 1;
                w
            })
        });
        QUALIFIERS.iter().filter(|q| qs.contains(&q.0)).map(|q| q.0).collect::<Vec<_>>().join("+")
    }
    fn decl(&mut self, kind: &str) -> Option<String> {
        let a = self.many(Self::annotation).concat();
        let q = self.quals();
        self.word(kind)?;
        let n = self.name()?;
        Some(format!("{a}[{q}]{n}"))
    }
    fn field(&mut self) -> Option<String> {
        let d = self.decl("let")?;
        self.word(":")?;
        let t = self.ty()?;
        let v = self.attempt(|r| {
            r.word("=")?;
            r.expr(0)
        });
        self.word(";")?;
        Some(format!("(field {d} {t} {})", v.unwrap_or("-".into())))
    }
    fn func(&mut self) -> Option<String> {
        let d = self.decl("func")?;
        self.word("(")?;
        let ps = self.comma(|r| {
            let q = r.quals();
            let n = r.name()?;
            r.word(":")?;
            Some(format!(" [{q}]{n}:{}", r.ty()?))
        });
        self.word(")")?;
        let t = self.attempt(|r| {
            r.word("->")?;
            r.ty()
        });
        let b = self.attempt(Self::block).or_else(|| {
            self.attempt(|r| {
                r.word("=")?;
                Some(format!("{{(return {})}}", r.expr(0)?))
            })
        });
        self.word(";");
        Some(format!("(func {d} ({}) {} {})", ps.concat(), t.unwrap_or("-".into()), b.unwrap_or("-".into())))
    }
    fn class(&mut self, kind: &str) -> Option<String> {
        let d = self.decl(kind)?;
        let b = if kind == "class" {
            self.attempt(|r| {
                r.word("extends")?;
                r.name()
            })
        } else {
            None
        };
        self.word("{")?;
        let ms = self.many(|r| r.attempt(Self::func).or_else(|| r.attempt(Self::field)));
        self.word("}")?;
        let ms: String = ms.iter().map(|m| format!(" {m}")).collect();
        Some(format!("({kind} {d} {}{ms})", b.unwrap_or("-".into())))
    }
    fn enum_(&mut self) -> Option<String> {
        let d = self.decl("enum")?;
        self.word("{")?;
        let ms = self.comma(|r| {
            let n = r.name()?;
            r.word("=")?;
            let v = r.peek();
            let v: i64 = v.trim_end_matches('l').parse().ok()?;
            r.i += 1;
            Some(format!("{n}={v}"))
        });
        self.word(",");
        self.word("}")?;
        Some(format!("(enum {d} {})", ms.join(",")))
    }
    fn path(&mut self) -> Option<String> {
        let w = self.peek();
        if !w.is_empty() && w.split('.').all(is_name) {
            self.i += 1;
            Some(w.to_owned())
        } else {
            self.nameless = true;
            None
        }
    }
    fn import(&mut self) -> Option<String> {
        let a = self.many(Self::annotation).concat();
        self.word("import")?;
        let p = self.path()?;
        let more = self.attempt(|r| {
            r.word(".")?;
            if r.word("*").is_some() {
                return Some(" *".to_owned());
            }
            r.word("{")?;
            let ns = r.comma(Self::name);
            r.word("}")?;
            Some(format!(" {{{}}}", ns.join(",")))
        });
        Some(format!(" (import {a}{p}{})", more.unwrap_or_default()))
    }
    fn module(&mut self) -> Option<String> {
        let p = self.attempt(|r| {
            r.word("module")?;
            r.path()
        });
        let is = self.many(Self::import).concat();
        let es = self.many(|r| {
            r.attempt(Self::func)
                .or_else(|| r.attempt(|r| r.class("class")))
                .or_else(|| r.attempt(|r| r.class("struct")))
                .or_else(|| r.attempt(Self::field))
                .or_else(|| r.attempt(Self::enum_))
        });
        if self.i < self.w.len() {
            return None;
        }
        let es: String = es.iter().map(|e| format!(" {e}")).collect();
        Some(format!("(module {}{is}{es})", p.unwrap_or("-".into())))
    }
}

/// what a text is read as, and whether that is of any concern
fn read(words: &[&str]) -> (Option<String>, bool) {
    let mut r = Reader { w: words, i: 0, nameless: false };
    let m = r.module();
    (m, !r.nameless)
}

/// a text of words, by the own reader and by the parser
fn judge(cx: &mut Cx, words: &[&str]) -> Result<(), Fail> {
    let text = words.join(" ");
    cx.case(|| text.clone());
    cx.state();
    cx.step();
    cx.trace();
    match read(words) {
        (want, true) => compare(&text, want.as_deref()),
        _ => parse(&text).map(|_| ()),
    }
}

// ---------------------------------------------------------------- expressions

fn wrapped<'a>(words: &[&'a str]) -> Vec<&'a str> {
    let mut w = vec!["func", "f", "(", ")", "{"];
    w.extend_from_slice(words);
    w.extend([";", "}"]);
    w
}

/// all sequences of words in the place of an expression
fn sequences(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const WORDS: [&str; 19] = ["a", "1", "-", "*", "<", ">", "(", ")", "?", ":", "=", ",", ".", "[", "]", "!", "new", "as", "null"];
    let k = 1 + ch.pick(n);
    let w: Vec<&str> = (0..k).map(|_| *ch.of(&WORDS)).collect();
    judge(cx, &wrapped(&w))
}

/// chains of all operators
fn chains(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const OPS: [&str; 29] = [
        "=", "+=", "-=", "*=", "/=", "|=", "&=", "||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "?", ":", ".", "[", "as", "(",
    ];
    const PRE: [&[&str]; 4] = [&[], &["-"], &["!"], &["~"]];
    let k = 1 + ch.pick(n);
    let few = k == n && n > 2;
    let mut w: Vec<&str> = vec![];
    let mut open = vec![];
    for i in 0..=k {
        if i == 0 || !few {
            w.extend(*ch.of(if few { &PRE[..2] } else { &PRE }));
        }
        w.push(["a", "b", "c", "d", "e"][i]);
        if i < k {
            let o = *ch.of(&OPS);
            w.push(o);
            match o {
                "[" => open.push("]"),
                "(" => open.push(")"),
                _ => {}
            }
        }
        // a bracket closes behind an operand
        if i == k || !open.is_empty() && ch.flag() {
            while let Some(c) = open.pop() {
                w.push(c);
            }
        }
    }
    judge(cx, &wrapped(&w))
}

// ---------------------------------------------------------------- sentences

/// sentences of every rule of the grammar
fn sentences() -> Vec<Vec<&'static str>> {
    let texts = [
        "func f ( ) { a ; }",
        "func f ( ) { while a { b ; } }",
        "func f ( ) { while a { } ; b ; }",
        "func f ( ) { for x in a { b ; break ; } }",
        "func f ( ) { if a { b ; } }",
        "func f ( ) { if a { b ; } else { c ; } ; d ; }",
        "func f ( ) { if a { } else if b { c ; } else { d ; } }",
        "func f ( ) { if a { } else if b { } }",
        "func f ( ) { switch a { case 1 : case b : c ; break ; default : d ; } }",
        "func f ( ) { switch a { case 1 : b ; } ; }",
        "func f ( ) { switch a { default : } }",
        "func f ( ) { return ; }",
        "func f ( ) { return a + 1 ; }",
        "func f ( ) { let x : T ; let y : array<T> = a ; let z = [ 1 , b ] ; }",
        "func f ( ) { a . b . c ( d , 1 ) [ 1 ] . e as T ; }",
        "func f ( ) { new A ( ) . b = g < T , U > ( a ) ; }",
        "func f ( ) { a ? b : c ? d : e ; }",
        "func f ( ) { ( a as T ) . b ( [ ] , null , this , super , true , \"s\" , s\"a\\(x)b\" ) ; }",
        "func f ( ) { x = y = a || b && ! c ; }",
        "func f ( ) -> T { }",
        "func f ( ) -> T = a + b ;",
        "func f ( ) = a",
        "func f ( a : T , out b : array<T> , opt c : U ) ;",
        "public static final func f ( ) -> T",
        "@if ( a && b ) @wrapMethod ( C ) protected func f ( a : T ) -> T { return wrappedMethod ( a ) ; }",
        "@addField ( C ) private persistent let x : T ;",
        "@addField ( C ) let x : T = 1 ;",
        "@runtimeProperty ( \"s\" , \"s\" ) class A { }",
        "class A { }",
        "public abstract native importonly class A extends B { let x : T ; func f ( ) { } }",
        "class A { @if ( a ) public const func f ( ) ; private let x : T = 1 ; cb func g ( ) = a ; quest exec func h ( ) }",
        "struct S { let x : T ; static func f ( ) { } }",
        "enum E { }",
        "enum E { A = 0 , B = -1 , }",
        "@if ( a ) enum E { A = 5l }",
        "module M",
        "module M.N import A import A.B . * import A . { B , C } @if ( a ) import D.E.F func f ( ) { }",
        "import A . { } class A { } class B extends A { } enum E { A = 1 } struct S { } func f ( ) ; @addField ( A ) let x : T ;",
    ];
    texts.iter().map(|t| t.split(' ').collect()).collect()
}

/// every sentence, and what comes of it with a word or two lost, added or exchanged
fn mutated(ch: &mut Chooser, cx: &mut Cx, all: &[Vec<&'static str>], edits: usize) -> Result<(), Fail> {
    const WORDS: [&str; 40] = [
        "a", "1", ";", ",", ":", "(", ")", "{", "}", "[", "]", "=", ".", "*", "-", "<", ">", "?", "->", "if", "else", "while", "for", "in", "switch", "case", "default", "return", "break", "let",
        "func", "class", "struct", "enum", "import", "module", "extends", "public", "@if", "T",
    ];
    let mut w = ch.of(all).clone();
    for _ in 0..edits {
        let i = ch.pick(w.len() + 1);
        match ch.pick(3) {
            0 if i < w.len() => {
                w.remove(i);
            }
            1 if i < w.len() => {
                w[i] = *ch.of(&WORDS);
            }
            2 => w.insert(i, *ch.of(&WORDS)),
            _ => return Ok(()),
        }
    }
    judge(cx, &w)
}

// ---------------------------------------------------------------- blanks and comments

const BLANKS: [&str; 12] = ["", " ", "\n", "\t", "\r\n", "/**/", "/* a */", "/* a /* b */ c */", "// a\n", "//\n", " /* \"s */ ", "/***/"];

/// every sentence with other blanks
fn blanks(ch: &mut Chooser, cx: &mut Cx, all: &[Vec<&'static str>], two: bool) -> Result<(), Fail> {
    let w = ch.of(all);
    let mut between: Vec<&str> = vec![" "; w.len() + 1];
    between[0] = "";
    between[w.len()] = "";
    for k in 0..if two { 2 } else { 1 } {
        let i = ch.pick(w.len() + 1);
        let b = *ch.of(&BLANKS);
        // the second one somewhere near
        if k == 1 && between[i] != " " {
            return Ok(());
        }
        between[i] = b;
    }
    let mut words: Vec<&str> = vec![];
    let mut text = String::new();
    for (i, b) in between.iter().enumerate() {
        text += b;
        if let Some(x) = w.get(i) {
            // what would become another word is left apart
            let glued = |a: &str, b: &str| {
                let (x, y) = (a.chars().last().unwrap(), b.chars().next().unwrap());
                let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '"' || c == '@';
                let sign = |c: char| "<>=!&|+-*/^.:?".contains(c);
                word(x) && word(y) || sign(x) && sign(y) || x == '-' && y.is_ascii_digit() || x.is_ascii_digit() && y == '.' || word(x) && y == '<' || word(x) && y == '.' || x == '.' && word(y)
            };
            if i > 0 && b.is_empty() && glued(w[i - 1], x) {
                return Ok(());
            }
            words.push(x);
            text += x;
        }
    }
    cx.case(|| text.clone());
    cx.state();
    cx.step();
    cx.trace();
    match read(&words) {
        (want, true) => compare(&text, want.as_deref()),
        _ => parse(&text).map(|_| ()),
    }
}

/// every short text of what comments are made of
fn comments(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const PARTS: [&str; 6] = ["/*", "*/", "//", "\n", "*", "/"];
    let k = ch.pick(n + 1);
    let parts: Vec<&str> = (0..k).map(|_| *ch.of(&PARTS)).collect();
    let text = parts.concat();
    // what of it is left: nothing, if it is all blank
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let blank = loop {
        if i == b.len() {
            break true;
        }
        let two = |i: usize| b.get(i).zip(b.get(i + 1)).map(|(a, b)| (*a, *b));
        if b[i] == '\n' {
            i += 1;
        } else if two(i) == Some(('/', '/')) {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if two(i) == Some(('/', '*')) {
            let mut depth = 0;
            let mut closed = false;
            while i < b.len() {
                match two(i) {
                    Some(('/', '*')) => {
                        depth += 1;
                        i += 2;
                    }
                    Some(('*', '/')) => {
                        depth -= 1;
                        i += 2;
                        if depth == 0 {
                            closed = true;
                            break;
                        }
                    }
                    _ => i += 1,
                }
            }
            if !closed {
                break false;
            }
        } else {
            break false;
        }
    };
    let text = format!("func f(){text}\nfunc g()");
    cx.case(|| format!("{text:?}"));
    cx.state();
    cx.step();
    cx.trace();
    // a comment that is open at the end swallows what follows
    compare(&text, blank.then_some("(module - (func []f () - -) (func []g () - -))"))
}

// ---------------------------------------------------------------- literals

/// the value of a number as it is written
fn number(s: &str) -> Option<String> {
    let digits = s.trim_end_matches(|c: char| c.is_ascii_lowercase());
    let suffix = &s[digits.len()..];
    if digits.is_empty() || !digits.chars().all(|c| c.is_ascii_digit() || c == '.') {
        return None;
    }
    let dots = digits.matches('.').count();
    let figures = digits.len() - dots;
    match suffix {
        "d" => (dots <= 1 && figures > 0).then(|| format!("F64:{:016x}", digits.parse::<f64>().unwrap().to_bits())),
        _ if dots == 1 && matches!(suffix, "" | "l" | "u" | "ul") => (figures > 0).then(|| format!("F32:{:08x}", digits.parse::<f32>().unwrap().to_bits())),
        _ if dots > 0 => None,
        "" => digits.parse::<i32>().ok().map(|x| format!("I32:{x}")),
        "l" => digits.parse::<i64>().ok().map(|x| format!("I64:{x}")),
        "u" => digits.parse::<u32>().ok().map(|x| format!("U32:{x}")),
        "ul" => digits.parse::<u64>().ok().map(|x| format!("U64:{x}")),
        _ => None,
    }
}

fn literal_text(s: &str) -> String {
    format!("func f() = {s};")
}

fn literal_tree(s: &str) -> String {
    format!("(module - (func []f () - {{(return {s})}}))")
}

/// all short numbers
fn numbers(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const LETTERS: [&str; 7] = ["0", "1", "9", ".", "u", "l", "d"];
    let k = 1 + ch.pick(n);
    let s: String = (0..k).map(|_| *ch.of(&LETTERS)).collect();
    // names are another matter
    if !s.starts_with(|c: char| c.is_ascii_digit() || c == '.') {
        return Ok(());
    }
    // an unsigned fraction is one of no meaning
    if s.ends_with("ud") || s.contains('.') && s.contains('u') {
        return Ok(());
    }
    // a member of a number
    if s.contains("l.") || s.contains("d.") {
        return Ok(());
    }
    cx.case(|| s.clone());
    cx.state();
    cx.step();
    cx.trace();
    compare(&literal_text(&s), number(&s).map(|v| literal_tree(&v)).as_deref())
}

/// numbers around the ends of their ranges
fn ends(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let ends: [u128; 9] = [0, 1 << 7, 1 << 8, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64];
    let Some(n) = (*ch.of(&ends) + 2).checked_sub(ch.pick(5) as u128) else { return Ok(()) };
    let suffix = *ch.of(&["", "l", "u", "ul", "d", ".0", ".0d", ".", "0", ".5"]);
    let zeros = *ch.of(&["", "0", "00000000000000000000"]);
    let s = format!("{zeros}{n}{suffix}");
    cx.case(|| s.clone());
    cx.state();
    cx.step();
    cx.trace();
    compare(&literal_text(&s), number(&s).map(|v| literal_tree(&v)).as_deref())?;
    // in an enumeration, with a sign and without
    let sign = *ch.of(&["", "-"]);
    let fits = match suffix {
        "" | "0" => format!("{sign}{zeros}{n}{suffix}").parse::<i32>().ok().map(i64::from),
        "l" => format!("{sign}{zeros}{n}").parse::<i64>().ok(),
        _ => None,
    };
    compare(&format!("enum E {{ A = {sign}{s} }}"), fits.map(|v| format!("(module - (enum []E A={v}))")).as_deref())
}

/// the characters a text between quotes stands for
fn unescape(s: &[char]) -> Option<String> {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            '"' => return None,
            '\\' => {
                let c = *s.get(i + 1)?;
                i += 1;
                match c {
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    '\'' => o.push('\''),
                    '"' => o.push('"'),
                    '\\' => o.push('\\'),
                    'u' => {
                        if s.get(i + 1) != Some(&'{') {
                            return None;
                        }
                        let end = s[i..].iter().position(|c| *c == '}')? + i;
                        let hex: String = s[i + 2..end].iter().collect();
                        if hex.is_empty() || hex.len() > 6 || !hex.chars().all(|c| c.is_ascii_hexdigit()) {
                            return None;
                        }
                        o.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                        i = end;
                    }
                    _ => return None,
                }
            }
            c => o.push(c),
        }
        i += 1;
    }
    Some(o)
}

/// all short contents of strings of every kind
fn strings(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const LETTERS: [&str; 14] = ["a", "é", "\\", "n", "r", "t", "'", "\"", "u", "{", "}", "4", "\n", "/*"];
    let k = ch.pick(n + 1);
    let s: String = (0..k).map(|_| *ch.of(&LETTERS)).collect();
    let kind = *ch.of(&["", "n", "r", "t", "s"]);
    check_string(cx, kind, &s)
}

fn check_string(cx: &mut Cx, kind: &str, s: &str) -> Result<(), Fail> {
    let chars: Vec<char> = s.chars().collect();
    let text = literal_text(&format!("{kind}\"{s}\""));
    cx.case(|| text.clone());
    cx.state();
    cx.step();
    cx.trace();
    let want = unescape(&chars).map(|v| {
        literal_tree(&match kind {
            "s" => format!("(text {v:?})"),
            _ => format!("{kind}{v:?}"),
        })
    });
    compare(&text, want.as_deref())
}

/// all escapes of a character by its number
fn escapes(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    const NUMBERS: [u32; 16] = [0, 9, 0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000];
    let x = *ch.of(&NUMBERS);
    let digits = match ch.pick(4) {
        0 => format!("{x:x}"),
        1 => format!("{x:X}"),
        2 => format!("{x:06x}"),
        _ => format!("{x:07x}"),
    };
    let around = *ch.of(&[("", ""), ("a", "b"), ("\\\\", "\\n"), ("}", "{")]);
    let kind = *ch.of(&["", "n", "r", "t", "s"]);
    check_string(cx, kind, &format!("{}\\u{{{digits}}}{}", around.0, around.1))
}

/// texts with expressions in them
fn interpolations(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const PARTS: [(&str, &str); 9] = [
        ("a", ""),
        (" ", ""),
        ("\\n", ""),
        ("(", ""),
        (")", ""),
        ("\\(x)", "x"),
        ("\\( y + 1 )", "(+ y I32:1)"),
        ("\\(g(\"q\", s\"\\(z)\"))", "(call g<> \"q\" (text \"\" z \"\"))"),
        ("\\(/* ) */(b))", "b"),
    ];
    let k = ch.pick(n + 1);
    let mut text = String::new();
    let mut parts: Vec<(String, String)> = vec![];
    let mut first = String::new();
    for _ in 0..k {
        let (t, e) = *ch.of(&PARTS);
        text += t;
        if e.is_empty() {
            let last = parts.last_mut().map_or(&mut first, |p| &mut p.1);
            last.push_str(if t == "\\n" { "\n" } else { t });
        } else {
            parts.push((e.to_owned(), String::new()));
        }
    }
    let text = literal_text(&format!("s\"{text}\""));
    cx.case(|| text.clone());
    cx.state();
    cx.step();
    cx.trace();
    let parts: String = parts.iter().map(|(e, s)| format!(" {e} {s:?}")).collect();
    compare(&text, Some(&literal_tree(&format!("(text {first:?}{parts})"))))
}

/// names and what only begins like a word of the language
fn names(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    const WORDS: [&str; 28] = [
        "new", "as", "null", "this", "super", "true", "false", "if", "else", "while", "for", "in", "switch", "case", "default", "return", "break", "let", "func", "class", "struct", "enum", "import",
        "module", "extends", "public", "out", "s",
    ];
    let word = *ch.of(&WORDS);
    let name = format!("{word}{}", ch.of(&["x", "_", "1", "X9"]));
    let n = name.as_str();
    let w: Vec<&str> = match ch.pick(13) {
        0 => wrapped(&[n]),
        1 => wrapped(&[n, "(", "a", ")"]),
        2 => wrapped(&["a", ".", n]),
        3 => wrapped(&["a", n]),
        4 => wrapped(&[n, "a"]),
        5 => wrapped(&["let", n, "=", "1"]),
        6 => wrapped(&["new", n, "(", ")"]),
        7 => wrapped(&["a", "as", n]),
        8 => vec!["func", n, "(", n, ":", n, ")", "->", n, "{", "return", n, ";", "}"],
        9 => vec!["class", n, "extends", n, "{", "let", n, ":", n, ";", "}"],
        10 => vec!["enum", n, "{", n, "=", "1", "}"],
        11 => vec![n, "func", "f", "(", ")"],
        _ => vec!["import", n, "func", "f", "(", "out", n, ":", "T", ")"],
    };
    judge(cx, &w)
}

/// every position of every file of a few short ones
fn positions(ch: &mut Chooser, cx: &mut Cx, n: usize) -> Result<(), Fail> {
    const LETTERS: [&str; 3] = ["a", "é", "\n"];
    let mut texts = vec![];
    for i in 0..3 {
        let k = ch.pick(if i == 1 { n } else { n - 1 } + 1);
        texts.push((0..k).map(|_| *ch.of(&LETTERS)).collect::<String>());
    }
    cx.case(|| format!("{texts:?}"));
    cx.trace();
    let names = ["a.reds", "b.reds", "c.reds"];
    let r = guarded(|| {
        let mut files = Files::new();
        for (n, t) in names.iter().zip(&texts) {
            files.add((*n).into(), t.clone());
        }
        let mut base = 0;
        for (i, t) in texts.iter().enumerate() {
            let lines: Vec<&str> = t.split_inclusive('\n').collect();
            for (k, _) in t.char_indices().chain([(t.len(), ' ')]) {
                cx.state();
                cx.step();
                let before = &t[..k];
                let line = before.matches('\n').count();
                let col = before.rsplit('\n').next().unwrap().chars().count();
                let pos = Pos::new(base + k);
                let Some(loc) = files.lookup(Span::new(pos, pos)) else {
                    return Some(format!("position {} is nowhere", base + k));
                };
                let got = (loc.file.path().to_str().unwrap().to_owned(), loc.start.line, loc.start.col, loc.end.line, loc.end.col);
                if got != (names[i].to_owned(), line, col, line, col) {
                    return Some(format!("position {} is {got:?} and not line {line}, column {col} of {}", base + k, names[i]));
                }
                let text = loc.file.enclosing_line(line);
                if text != lines.get(line).copied().unwrap_or("") {
                    return Some(format!("line {line} of {} is {text:?}", names[i]));
                }
            }
            base += t.len() + 1;
        }
        None
    });
    match r {
        Ok(None) => Ok(()),
        Ok(Some(e)) => fail("position", format!("{texts:?}\n  {e}")),
        Err(p) => fail("panic", format!("{texts:?}\n  panicked: {p}")),
    }
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let all = sentences();
    ctx.explore("sequences of words", |ch, cx| sequences(ch, cx, if t { 6 } else { 5 }));
    ctx.explore("chains of operators", |ch, cx| chains(ch, cx, if t { 4 } else { 3 }));
    ctx.explore("sentences", |ch, cx| mutated(ch, cx, &all, 0));
    ctx.explore("one word wrong", |ch, cx| mutated(ch, cx, &all, 1));
    ctx.explore("blanks", |ch, cx| blanks(ch, cx, &all, false));
    ctx.explore("blanks at two places", |ch, cx| blanks(ch, cx, &all, true));
    ctx.explore("comments", |ch, cx| comments(ch, cx, if t { 9 } else { 7 }));
    ctx.explore("numbers", |ch, cx| numbers(ch, cx, if t { 7 } else { 6 }));
    ctx.explore("ends of ranges", ends);
    ctx.explore("strings", |ch, cx| strings(ch, cx, if t { 6 } else { 5 }));
    ctx.explore("escapes", escapes);
    ctx.explore("texts with expressions", |ch, cx| interpolations(ch, cx, if t { 7 } else { 6 }));
    ctx.explore("names", names);
    ctx.explore("positions in files", |ch, cx| positions(ch, cx, if t { 6 } else { 5 }));
    // the statements, and the rest of them
    let (front, back) = all.split_at(4);
    ctx.explore("two words wrong", |ch, cx| mutated(ch, cx, front, 2));
    if t {
        ctx.explore("two words wrong in the rest", |ch, cx| mutated(ch, cx, back, 2));
    }
}
