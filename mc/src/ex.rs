//! Expressions: a pool to refer to, the forms an instruction can take, canonical trees,
//! and a reader of the language's grammar for what the printer writes.
use std::fmt;

use redscript::ast::{BinOp, Constant, Expr, Literal, Seq, SourceAst, TypeName, UnOp};
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::definition::{
    Class, ClassFlags, Definition, Enum, Field, FieldFlags, Function, FunctionFlags, Local, LocalFlags, Parameter,
    ParameterFlags, Type, Visibility,
};
use redscript::Ref;

use crate::dec::{empty_fun, Asm};
use crate::ops::MInstr;

/// a canonical tree
#[derive(Clone, PartialEq, Eq)]
pub struct W {
    pub h: String,
    pub k: Vec<W>,
}

pub fn w(h: impl Into<String>, k: Vec<W>) -> W {
    W { h: h.into(), k }
}

impl fmt::Debug for W {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.k.is_empty() {
            return write!(f, "{}", self.h);
        }
        write!(f, "({}", self.h)?;
        for k in &self.k {
            write!(f, " {k:?}")?;
        }
        write!(f, ")")
    }
}

// ------------------------------------------------------------------ the decompiler's tree

pub fn ty(t: &TypeName) -> String {
    if t.arguments().is_empty() {
        t.name().to_string()
    } else {
        format!("{}<{}>", t.name(), t.arguments().iter().map(ty).collect::<Vec<_>>().join(","))
    }
}

pub fn constant(c: &Constant) -> W {
    let h = match c {
        Constant::String(Literal::String, s) => format!("str {s:?}"),
        Constant::String(Literal::Name, s) => format!("name {s:?}"),
        Constant::String(Literal::Resource, s) => format!("res {s:?}"),
        Constant::String(Literal::TweakDbId, s) => format!("tdb {s:?}"),
        Constant::F32(x) => format!("f32 {:08x}", x.to_bits()),
        Constant::F64(x) => format!("f64 {:016x}", x.to_bits()),
        Constant::I32(x) => format!("i32 {x}"),
        Constant::I64(x) => format!("i64 {x}"),
        Constant::U32(x) => format!("u32 {x}"),
        Constant::U64(x) => format!("u64 {x}"),
        Constant::Bool(x) => format!("bool {x}"),
    };
    w(h, vec![])
}

fn types(t: &[TypeName]) -> String {
    t.iter().map(ty).collect::<Vec<_>>().join(",")
}

pub fn w_seq(s: &Seq<SourceAst>) -> W {
    w("seq", s.exprs.iter().filter(|e| !matches!(e, Expr::Seq(s) if s.exprs.is_empty())).map(w_of).collect())
}

pub fn w_of(e: &Expr<SourceAst>) -> W {
    let many = |xs: &[Expr<SourceAst>]| xs.iter().map(w_of).collect::<Vec<_>>();
    match e {
        Expr::Ident(i, _) => w(format!("id {i}"), vec![]),
        Expr::Constant(c, _) => constant(c),
        Expr::ArrayLit(xs, _, _) => w("array", many(xs)),
        Expr::InterpolatedString(..) => w("interpolated", vec![]),
        Expr::Declare(n, t, v, _) => w(
            format!("let {n} {}", t.as_ref().map(|t| ty(t)).unwrap_or_default()),
            v.iter().map(|v| w_of(v)).collect(),
        ),
        Expr::Cast(t, e, _) => w(format!("cast {}", ty(t)), vec![w_of(e)]),
        Expr::Assign(a, b, _) => w("assign", vec![w_of(a), w_of(b)]),
        Expr::Call(f, t, a, _) => w(format!("call {f} <{}>", types(t)), many(a)),
        Expr::MethodCall(o, f, a, _) => {
            let mut k = vec![w_of(o)];
            k.extend(many(a));
            w(format!("method {f}"), k)
        }
        Expr::Member(o, m, _) => w(format!("member {m}"), vec![w_of(o)]),
        Expr::ArrayElem(a, i, _) => w("elem", vec![w_of(a), w_of(i)]),
        Expr::New(t, a, _) => w(format!("new {}", ty(t)), many(a)),
        Expr::Return(e, _) => w("return", e.iter().map(|e| w_of(e)).collect()),
        Expr::Seq(s) => w_seq(s),
        Expr::Switch(s, cs, d, _) => {
            let mut k = vec![w_of(s)];
            for c in cs {
                k.push(w("case", vec![w_of(&c.matcher), w_seq(&c.body)]));
            }
            if let Some(d) = d {
                k.push(w("default", vec![w_seq(d)]));
            }
            w("switch", k)
        }
        Expr::Goto(t, _) => w(format!("goto {}", t.position.value), vec![]),
        Expr::If(c, a, b, _) => {
            let mut k = vec![w_of(c), w_seq(a)];
            k.extend(b.iter().map(w_seq));
            w("if", k)
        }
        Expr::Conditional(c, a, b, _) => w("cond", vec![w_of(c), w_of(a), w_of(b)]),
        Expr::While(c, b, _) => w("while", vec![w_of(c), w_seq(b)]),
        Expr::ForIn(..) => w("for", vec![]),
        Expr::BinOp(a, b, op, _) => w(format!("bin {}", binop(*op)), vec![w_of(a), w_of(b)]),
        Expr::UnOp(a, op, _) => w(
            format!(
                "un {}",
                match op {
                    UnOp::BitNot => "~",
                    UnOp::LogicNot => "!",
                    UnOp::Neg => "-",
                }
            ),
            vec![w_of(a)],
        ),
        Expr::This(_) => w("this", vec![]),
        Expr::Super(_) => w("super", vec![]),
        Expr::Break(_) => w("break", vec![]),
        Expr::Null(_) => w("null", vec![]),
    }
}

fn binop(op: BinOp) -> &'static str {
    match op {
        BinOp::AssignAdd => "+=",
        BinOp::AssignSubtract => "-=",
        BinOp::AssignMultiply => "*=",
        BinOp::AssignDivide => "/=",
        BinOp::AssignOr => "|=",
        BinOp::AssignAnd => "&=",
        BinOp::LogicOr => "||",
        BinOp::LogicAnd => "&&",
        BinOp::Or => "|",
        BinOp::Xor => "^",
        BinOp::And => "&",
        BinOp::Equal => "==",
        BinOp::NotEqual => "!=",
        BinOp::Less => "<",
        BinOp::LessEqual => "<=",
        BinOp::Greater => ">",
        BinOp::GreaterEqual => ">=",
        BinOp::Add => "+",
        BinOp::Subtract => "-",
        BinOp::Multiply => "*",
        BinOp::Divide => "/",
        BinOp::Modulo => "%",
    }
}

/// operator functions and the symbols the language writes them with
pub const BINARY: &[(&str, &str)] = &[
    ("OperatorAssignAdd", "+="),
    ("OperatorAssignSubtract", "-="),
    ("OperatorAssignMultiply", "*="),
    ("OperatorAssignDivide", "/="),
    ("OperatorAssignOr", "|="),
    ("OperatorAssignAnd", "&="),
    ("OperatorLogicOr", "||"),
    ("OperatorLogicAnd", "&&"),
    ("OperatorOr", "|"),
    ("OperatorXor", "^"),
    ("OperatorAnd", "&"),
    ("OperatorEqual", "=="),
    ("OperatorNotEqual", "!="),
    ("OperatorLess", "<"),
    ("OperatorLessEqual", "<="),
    ("OperatorGreater", ">"),
    ("OperatorGreaterEqual", ">="),
    ("OperatorAdd", "+"),
    ("OperatorSubtract", "-"),
    ("OperatorMultiply", "*"),
    ("OperatorDivide", "/"),
    ("OperatorModulo", "%"),
];
pub const UNARY: &[(&str, &str)] = &[("OperatorBitNot", "~"), ("OperatorLogicNot", "!"), ("OperatorNeg", "-")];

// ------------------------------------------------------------------ what the text must mean

fn fold_neg(t: W) -> W {
    if t.h == "un -" && t.k.len() == 1 && t.k[0].k.is_empty() {
        let h = &t.k[0].h;
        if let Some(n) = h.strip_prefix("i32 ").and_then(|n| n.parse::<i32>().ok()) {
            if let Some(m) = n.checked_neg() {
                return w(format!("i32 {m}"), vec![]);
            }
        }
        if let Some(n) = h.strip_prefix("i64 ").and_then(|n| n.parse::<i64>().ok()) {
            if let Some(m) = n.checked_neg() {
                return w(format!("i64 {m}"), vec![]);
            }
        }
        if let Some(n) = h.strip_prefix("f32 ").and_then(|n| u32::from_str_radix(n, 16).ok()) {
            return w(format!("f32 {:08x}", n ^ 0x8000_0000), vec![]);
        }
        if let Some(n) = h.strip_prefix("f64 ").and_then(|n| u64::from_str_radix(n, 16).ok()) {
            return w(format!("f64 {:016x}", n ^ (1 << 63)), vec![]);
        }
    }
    t
}

/// operators whose grouping does not matter
fn regroup(t: W) -> W {
    if let "bin ||" | "bin &&" | "bin |" | "bin &" | "bin ^" = t.h.as_str() {
        let mut it = t.k.into_iter();
        let (a, b) = (it.next().unwrap(), it.next().unwrap());
        if b.h == t.h {
            let mut jt = b.k.into_iter();
            let (b1, b2) = (jt.next().unwrap(), jt.next().unwrap());
            let left = regroup(w(t.h.clone(), vec![a, b1]));
            return regroup(w(t.h, vec![left, b2]));
        }
        return w(t.h, vec![a, b]);
    }
    t
}

/// the meaning of a decompiled tree in source terms
pub fn meaning(t: &W, verbose: bool) -> W {
    let mut k: Vec<W> = t.k.iter().map(|x| meaning(x, verbose)).collect();
    let mut h = t.h.clone();
    if let Some(rest) = h.strip_prefix("call ") {
        let (name, tys) = rest.rsplit_once(" <").expect("harness: call head");
        let name = name.split(';').next().unwrap_or_default();
        if let (Some((_, s)), 2) = (BINARY.iter().find(|(n, _)| *n == name), k.len()) {
            return regroup(w(format!("bin {s}"), k));
        }
        if let (Some((_, s)), 1) = (UNARY.iter().find(|(n, _)| *n == name), k.len()) {
            return fold_neg(w(format!("un {s}"), k));
        }
        if !verbose && k.len() == 1 && ["WeakRefToRef", "RefToWeakRef", "AsRef"].contains(&name) {
            return k.pop().unwrap();
        }
        h = format!("call {name} <{tys}");
    } else if let Some(rest) = h.strip_prefix("method ") {
        h = format!("method {}", rest.split(';').next().unwrap_or_default());
    }
    if h == "seq" {
        // an empty statement leaves no text
        k.retain(|x| !(x.h == "seq" && x.k.is_empty()));
    }
    fold_neg(regroup(w(h, k)))
}

/// normal form of a parsed tree
pub fn parsed(t: &W) -> W {
    let k: Vec<W> = t.k.iter().map(parsed).collect();
    fold_neg(regroup(w(t.h.clone(), k)))
}

// ------------------------------------------------------------------ a reader of the grammar

pub struct Parser<'a> {
    s: &'a [u8],
    text: &'a str,
    p: usize,
}

type P<T> = Result<T, String>;

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

/// (symbol, level, right associative)
const INFIX: &[(&str, u8, bool)] = &[
    ("||", 1, false),
    ("&&", 2, false),
    ("==", 6, false),
    ("!=", 6, false),
    ("<=", 7, false),
    (">=", 7, false),
    ("+=", 0, true),
    ("-=", 0, true),
    ("*=", 0, true),
    ("/=", 0, true),
    ("|=", 0, true),
    ("&=", 0, true),
    ("|", 3, false),
    ("^", 4, false),
    ("&", 5, false),
    ("<", 7, false),
    (">", 7, false),
    ("+", 8, false),
    ("-", 8, false),
    ("*", 9, false),
    ("/", 9, false),
    ("%", 9, false),
    ("=", 0, true),
];

impl<'a> Parser<'a> {
    pub fn new(text: &'a str) -> Self {
        Parser { s: text.as_bytes(), text, p: 0 }
    }
    fn err<T>(&self, what: &str) -> P<T> {
        let rest: String = self.text.get(self.p..).unwrap_or("?").chars().take(40).collect();
        Err(format!("{what} expected at {:?}", rest))
    }
    pub fn err_at(&self, what: &str) -> String {
        self.err::<()>(what).unwrap_err()
    }
    pub fn digits(&mut self) -> P<String> {
        let start = self.p;
        while self.s.get(self.p).is_some_and(u8::is_ascii_digit) {
            self.p += 1;
        }
        if start == self.p {
            return self.err("digits");
        }
        Ok(self.text[start..self.p].to_owned())
    }
    /// the rest of the line
    pub fn line(&mut self) -> &'a str {
        let start = self.p;
        let end = self.text[start..].find('\n').map_or(self.text.len(), |i| i + start);
        self.p = end;
        &self.text[start..end]
    }
    pub fn ws(&mut self) {
        while self.s.get(self.p).is_some_and(u8::is_ascii_whitespace) {
            self.p += 1;
        }
    }
    pub fn at_end(&mut self) -> bool {
        self.ws();
        self.p == self.s.len()
    }
    fn looking(&self, x: &str) -> bool {
        self.s[self.p..].starts_with(x.as_bytes())
    }
    pub fn eat(&mut self, x: &str) -> bool {
        if self.looking(x) {
            self.p += x.len();
            true
        } else {
            false
        }
    }
    pub fn need(&mut self, x: &str) -> P<()> {
        self.ws();
        if self.eat(x) {
            Ok(())
        } else {
            self.err(x)
        }
    }
    pub fn keyword(&mut self, x: &str) -> bool {
        if self.looking(x) && !self.s.get(self.p + x.len()).copied().is_some_and(word) {
            self.p += x.len();
            true
        } else {
            false
        }
    }
    pub fn ident(&mut self) -> P<String> {
        let start = self.p;
        if self.s.get(self.p).copied().is_some_and(|c| word(c) && !c.is_ascii_digit()) {
            while self.s.get(self.p).copied().is_some_and(word) {
                self.p += 1;
            }
            Ok(self.text[start..self.p].to_owned())
        } else {
            self.err("identifier")
        }
    }
    fn type_args(&mut self) -> P<Vec<String>> {
        self.need("<")?;
        let mut out = vec![];
        loop {
            self.ws();
            out.push(self.type_()?);
            self.ws();
            if !self.eat(",") {
                break;
            }
        }
        self.need(">")?;
        Ok(out)
    }
    pub fn type_(&mut self) -> P<String> {
        let n = self.ident()?;
        if self.looking("<") {
            let a = self.type_args()?;
            return Ok(format!("{n}<{}>", a.join(",")));
        }
        Ok(n)
    }
    fn args(&mut self, close: &str) -> P<Vec<W>> {
        let mut out = vec![];
        self.ws();
        if self.eat(close) {
            return Ok(out);
        }
        loop {
            self.ws();
            out.push(self.expr(0)?);
            self.ws();
            if !self.eat(",") {
                break;
            }
        }
        self.need(close)?;
        Ok(out)
    }
    fn number(&mut self) -> P<W> {
        let start = self.p;
        self.eat("-");
        let digits = self.p;
        while self.s.get(self.p).copied().is_some_and(|c| c.is_ascii_digit() || c == b'.') {
            self.p += 1;
        }
        if digits == self.p {
            self.p = start;
            return self.err("number");
        }
        let text = &self.text[start..self.p];
        let unsigned = self.eat("u");
        let postfix = if self.eat("l") {
            'l'
        } else if self.eat("d") {
            'd'
        } else {
            ' '
        };
        let c = if postfix == 'd' {
            text.parse().ok().map(Constant::F64)
        } else if text.contains('.') {
            text.parse().ok().map(Constant::F32)
        } else if postfix == 'l' && unsigned {
            text.parse().ok().map(Constant::U64)
        } else if unsigned {
            text.parse().ok().map(Constant::U32)
        } else if postfix == 'l' {
            text.parse().ok().map(Constant::I64)
        } else {
            text.parse().ok().map(Constant::I32)
        };
        match c {
            Some(c) => Ok(constant(&c)),
            None => {
                self.p = start;
                self.err("valid number")
            }
        }
    }
    pub fn string(&mut self) -> P<String> {
        self.need("\"")?;
        let mut out = String::new();
        loop {
            let Some(c) = self.text[self.p..].chars().next() else {
                return self.err("end of string");
            };
            self.p += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let Some(e) = self.text[self.p..].chars().next() else {
                        return self.err("escape");
                    };
                    self.p += e.len_utf8();
                    match e {
                        'n' => out.push('\n'),
                        'r' => out.push('\r'),
                        't' => out.push('\t'),
                        '\'' => out.push('\''),
                        '"' => out.push('"'),
                        '\\' => out.push('\\'),
                        'u' => {
                            self.need("{")?;
                            let end = self.text[self.p..].find('}').map(|i| i + self.p);
                            let Some(end) = end else { return self.err("}") };
                            let hex = &self.text[self.p..end];
                            if hex.is_empty() || hex.len() > 6 {
                                return self.err("up to six hex digits");
                            }
                            match u32::from_str_radix(hex, 16).ok().and_then(char::from_u32) {
                                Some(c) => out.push(c),
                                None => return self.err("character"),
                            }
                            self.p = end + 1;
                        }
                        _ => return self.err("escape"),
                    }
                }
                c => out.push(c),
            }
        }
    }
    fn atom(&mut self) -> P<W> {
        let start = self.p;
        if self.eat("!") {
            self.ws();
            return Ok(w("un !", vec![self.expr(10)?]));
        }
        if self.eat("~") {
            self.ws();
            return Ok(w("un ~", vec![self.expr(10)?]));
        }
        if self.eat("-") {
            self.ws();
            if let Ok(e) = self.expr(10) {
                return Ok(w("un -", vec![e]));
            }
            self.p = start;
            return self.number();
        }
        if self.keyword("new") {
            self.ws();
            if let Ok(c) = self.ident() {
                self.ws();
                if self.eat("(") {
                    let a = self.args(")")?;
                    return Ok(w(format!("new {c}"), a));
                }
            }
            self.p = start;
        }
        if self.eat("[") {
            let a = self.args("]")?;
            return Ok(w("array", a));
        }
        if self.eat("(") {
            self.ws();
            let e = self.expr(0)?;
            self.need(")")?;
            return Ok(e);
        }
        for k in ["null", "this", "super"] {
            if self.keyword(k) {
                return Ok(w(k, vec![]));
            }
        }
        if self.keyword("true") {
            return Ok(w("bool true", vec![]));
        }
        if self.keyword("false") {
            return Ok(w("bool false", vec![]));
        }
        if self.s.get(self.p).copied().is_some_and(|c| c.is_ascii_digit() || c == b'.') {
            return self.number();
        }
        for (p, h) in [("\"", "str"), ("n\"", "name"), ("r\"", "res"), ("t\"", "tdb")] {
            if self.looking(p) {
                self.p += p.len() - 1;
                let s = self.string()?;
                return Ok(w(format!("{h} {s:?}"), vec![]));
            }
        }
        let id = self.ident()?;
        let after = self.p;
        self.ws();
        let tys = if self.looking("<") {
            let here = self.p;
            match self.type_args() {
                Ok(t) => t,
                Err(_) => {
                    self.p = here;
                    vec![]
                }
            }
        } else {
            vec![]
        };
        self.ws();
        if self.eat("(") {
            let a = self.args(")")?;
            return Ok(w(format!("call {id} <{}>", tys.join(",")), a));
        }
        self.p = after;
        Ok(w(format!("id {id}"), vec![]))
    }
    pub fn expr(&mut self, min: u8) -> P<W> {
        let mut e = self.atom()?;
        'outer: loop {
            let back = self.p;
            self.ws();
            if self.eat("[") {
                self.ws();
                let i = self.expr(0)?;
                self.need("]")?;
                e = w("elem", vec![e, i]);
                continue;
            }
            if self.eat(".") {
                self.ws();
                let m = self.ident()?;
                let here = self.p;
                self.ws();
                if self.eat("(") {
                    let mut k = vec![e];
                    k.extend(self.args(")")?);
                    e = w(format!("method {m}"), k);
                } else {
                    self.p = here;
                    e = w(format!("member {m}"), vec![e]);
                }
                continue;
            }
            if self.keyword("as") {
                self.ws();
                let t = self.type_()?;
                e = w(format!("cast {t}"), vec![e]);
                continue;
            }
            if min == 0 && self.eat("?") {
                self.ws();
                let a = self.expr(0)?;
                self.need(":")?;
                self.ws();
                let b = self.expr(0)?;
                e = w("cond", vec![e, a, b]);
                continue;
            }
            for (s, level, right) in INFIX {
                if self.looking(s) {
                    if *level < min {
                        self.p = back;
                        return Ok(e);
                    }
                    self.p += s.len();
                    self.ws();
                    let r = self.expr(if *right { *level } else { level + 1 })?;
                    e = w(if *s == "=" { "assign".to_owned() } else { format!("bin {s}") }, vec![e, r]);
                    continue 'outer;
                }
            }
            self.p = back;
            return Ok(e);
        }
    }
    pub fn block(&mut self) -> P<W> {
        self.need("{")?;
        let b = self.seq()?;
        self.need("}")?;
        Ok(b)
    }
    pub fn seq(&mut self) -> P<W> {
        let mut out = vec![];
        loop {
            self.ws();
            if self.p == self.s.len() || self.looking("}") {
                break;
            }
            let here = self.p;
            if self.keyword("case") || self.keyword("default") {
                self.p = here;
                break;
            }
            out.push(self.stmt()?);
        }
        Ok(w("seq", out))
    }
    fn optional_semi(&mut self) {
        let back = self.p;
        self.ws();
        if !self.eat(";") {
            self.p = back;
        }
    }
    fn stmt(&mut self) -> P<W> {
        if self.keyword("while") {
            self.ws();
            let c = self.expr(0)?;
            let b = self.block()?;
            self.optional_semi();
            return Ok(w("while", vec![c, b]));
        }
        if self.keyword("if") {
            self.ws();
            let c = self.expr(0)?;
            let b = self.block()?;
            let mut k = vec![c, b];
            self.ws();
            if self.keyword("else") {
                k.push(self.block()?);
            }
            self.optional_semi();
            return Ok(w("if", k));
        }
        if self.keyword("switch") {
            self.ws();
            let mut k = vec![self.expr(0)?];
            self.need("{")?;
            loop {
                self.ws();
                if self.keyword("case") {
                    self.ws();
                    let m = self.expr(0)?;
                    self.need(":")?;
                    let b = self.seq()?;
                    k.push(w("case", vec![m, b]));
                } else if self.keyword("default") {
                    self.need(":")?;
                    let b = self.seq()?;
                    k.push(w("default", vec![b]));
                } else {
                    break;
                }
            }
            self.need("}")?;
            self.optional_semi();
            return Ok(w("switch", k));
        }
        if self.keyword("return") {
            self.ws();
            let k = if self.looking(";") { vec![] } else { vec![self.expr(0)?] };
            self.need(";")?;
            return Ok(w("return", k));
        }
        if self.keyword("break") {
            self.need(";")?;
            return Ok(w("break", vec![]));
        }
        if self.keyword("let") {
            self.ws();
            let n = self.ident()?;
            self.ws();
            let t = if self.eat(":") {
                self.ws();
                self.type_()?
            } else {
                String::new()
            };
            self.ws();
            let k = if self.eat("=") {
                self.ws();
                vec![self.expr(0)?]
            } else {
                vec![]
            };
            self.need(";")?;
            return Ok(w(format!("let {n} {t}"), k));
        }
        let e = self.expr(0)?;
        self.need(";")?;
        Ok(e)
    }
}

// ------------------------------------------------------------------ the pool

pub struct ExPool {
    pub pool: ConstantPool,
    pub forms: Vec<Form>,
    pub fun: u32,
    ids: std::collections::BTreeMap<String, u32>,
}

/// how a node is written in code
pub enum How {
    /// the instruction, then the operands
    Plain(MInstr),
    Conditional,
    /// a call instruction, its parameters and the end mark; `lead` is put before each parameter
    Invoke { op: u8, target: i64, flags: i64 },
    /// the first operand is the object
    Context(Box<How>),
}

pub struct Form {
    pub name: String,
    pub how: How,
    pub arity: usize,
    pub want: Box<dyn Fn(Vec<W>) -> W>,
    /// one of each kind of structure
    pub rep: bool,
    /// stands for a value or place (as opposed to a statement)
    pub value: bool,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub form: usize,
    pub kids: Vec<Node>,
}

impl ExPool {
    fn def(&mut self, key: &str, d: Definition) -> u32 {
        let i = u32::from(self.pool.add_definition::<Definition>(d));
        self.ids.insert(key.to_owned(), i);
        i
    }
    pub fn id(&self, key: &str) -> u32 {
        *self.ids.get(key).unwrap_or_else(|| panic!("harness: no {key}"))
    }
    fn name(&mut self, s: &str) -> PoolIndex<redscript::bundle::CName> {
        self.pool.names.add(Ref::from(s))
    }
    fn fun_def(&mut self, key: &str, name: &str, parent: Option<u32>, flags: FunctionFlags, ret: Option<u32>) -> u32 {
        let n = self.name(name);
        let mut f = empty_fun(flags);
        f.return_type = ret.map(PoolIndex::new);
        let p = parent.map_or(PoolIndex::<Class>::UNDEFINED, PoolIndex::new);
        self.def(key, Definition::function(n, p, f))
    }

    pub fn new() -> Self {
        let mut x = ExPool { pool: ConstantPool::default(), forms: vec![], fun: 0, ids: std::collections::BTreeMap::new() };
        x.pool.names.add(Ref::from("zero"));
        x.pool.reserve::<Definition>();
        // class indices are needed by the types: reserve in order
        for (key, name, base) in [("Base", "Base", None), ("A", "A", Some("Base")), ("S", "S", None), ("Later", "Later", None)] {
            let n = x.name(name);
            let b = base.map_or(PoolIndex::UNDEFINED, |b| PoolIndex::new(x.id(b)));
            let c = Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: b, functions: vec![], fields: vec![], overrides: vec![] };
            x.def(key, Definition::class(n, c));
        }
        let (b, l) = (x.id("Base"), x.id("Later"));
        x.pool.class_mut(PoolIndex::new(b)).expect("harness: Base").base = PoolIndex::new(l);
        let n = x.name("Int32");
        x.def("Int32", Definition::type_(n, Type::Prim));
        for c in ["A", "S"] {
            let n = x.name(c);
            x.def(&format!("type {c}"), Definition::type_(n, Type::Class));
        }
        let i32_ = PoolIndex::new(x.id("Int32"));
        let a = PoolIndex::new(x.id("type A"));
        for (n, t) in [
            ("ref:A", Type::Ref(a)),
            ("wref:A", Type::WeakRef(a)),
            ("script_ref:Int32", Type::ScriptRef(i32_)),
            ("array:Int32", Type::Array(i32_)),
        ] {
            let ni = x.name(n);
            x.def(n, Definition::type_(ni, t));
        }
        let ra = PoolIndex::new(x.id("ref:A"));
        let ni = x.name("array:ref:A");
        x.def("array:ref:A", Definition::type_(ni, Type::Array(ra)));
        // an enum
        let n = x.name("En");
        let e = x.def("En", Definition::enum_(n, Enum { flags: 0, size: 4, members: vec![], unk1: false }));
        for (m, v) in [("M1", 0), ("M2", 5)] {
            let n = x.name(m);
            x.def(m, Definition::enum_value(n, PoolIndex::new(e), v));
        }
        for (f, c, t) in [("fa", "A", "Int32"), ("fb", "A", "ref:A"), ("sf", "S", "Int32")] {
            let n = x.name(f);
            let field = Field {
                visibility: Visibility::Public,
                type_: PoolIndex::new(x.id(t)),
                flags: FieldFlags::new(),
                hint: None,
                attributes: vec![],
                defaults: vec![],
            };
            let p = PoolIndex::new(x.id(c));
            x.def(f, Definition::field(n, p, field));
        }
        let st = FunctionFlags::new().with_is_static(true);
        let (ca, cb) = (x.id("A"), x.id("Base"));
        let it = x.id("Int32");
        x.fun_def("glob", "Glob;Int32Int32", None, st, None);
        x.fun_def("bare", "Bare", None, st, None);
        x.fun_def("Cast", "Cast;Float;Int32", None, st, Some(it));
        let raw = x.id("array:ref:A");
        x.fun_def("Cast2", "Cast;Float;array:ref:A", None, st, Some(raw));
        x.fun_def("Castle", "Castle;Float", None, st, Some(it));
        x.fun_def("smeth", "SMeth;Int32", Some(ca), st, None);
        x.fun_def("meth", "Meth;Int32", Some(ca), FunctionFlags::new(), None);
        x.fun_def("bmeth", "BMeth;", Some(cb), FunctionFlags::new(), None);
        x.fun_def("supertest", "Test;Int32", Some(cb), FunctionFlags::new(), None);
        x.fun_def("latertest", "Test;Int32", Some(l), FunctionFlags::new(), None);
        x.fun_def("lmeth", "LMeth;Int32", Some(l), FunctionFlags::new(), None);
        x.fun_def("test2", "Test;", Some(l), FunctionFlags::new(), None);
        x.fun_def("castm", "Cast;Float;Int32", Some(ca), st, Some(it));
        x.fun_def("ssupertest", "Test;Int32", Some(cb), st, None);
        for (n, _) in BINARY {
            x.fun_def(n, &format!("{n};Int32Int32;Int32"), None, st, Some(it));
        }
        for (n, _) in UNARY {
            x.fun_def(n, &format!("{n};Int32;Int32"), None, st, Some(it));
        }
        x.fun = x.fun_def("self", "Test;Int32", Some(ca), FunctionFlags::new().with_has_body(true), None);
        let f = x.fun;
        for (l, t) in [("x", "Int32"), ("y", "ref:A"), ("z", "array:ref:A")] {
            let n = x.name(l);
            let d = Local { type_: PoolIndex::new(x.id(t)), flags: LocalFlags::new() };
            x.def(l, Definition::local(n, PoolIndex::new(f), d));
        }
        for (l, t) in [("p", "Int32"), ("q", "ref:A")] {
            let n = x.name(l);
            let d = Parameter { type_: PoolIndex::new(x.id(t)), flags: ParameterFlags::new() };
            x.def(l, Definition::param(n, PoolIndex::new(f), d));
        }
        x.make_forms();
        x
    }

    fn push(&mut self, name: &str, how: How, arity: usize, rep: bool, want: impl Fn(Vec<W>) -> W + 'static) {
        self.forms.push(Form { name: name.to_owned(), how, arity, want: Box::new(want), rep, value: true });
    }
    fn plain(&mut self, op: u8, vals: &[i64], arity: usize, rep: bool, head: &str) {
        let head = head.to_owned();
        let i = MInstr::ints(op, vals);
        self.push(&i.show(), How::Plain(i), arity, rep, move |k| w(head.clone(), k));
    }

    fn make_forms(&mut self) {
        // places first: forms 0, 1, 2, 3 are the default operands
        for (n, op) in [("x", 24), ("y", 24), ("p", 25), ("q", 25)] {
            let i = i64::from(self.id(n));
            self.plain(op, &[i], 0, n == "x", &format!("id {n}"));
        }
        let (ia, is, int, refa) = (i64::from(self.id("A")), i64::from(self.id("S")), i64::from(self.id("Int32")), i64::from(self.id("ref:A")));
        self.plain(50, &[], 0, true, "this");
        self.plain(1, &[], 0, true, "null");
        self.plain(101, &[], 0, false, "null");
        self.plain(2, &[], 0, false, "i32 1");
        self.plain(3, &[], 0, false, "i32 0");
        for v in [-128, -1, 0, 127] {
            self.plain(4, &[v], 0, v == -1, &format!("i32 {v}"));
        }
        for v in [-32768, -1, 255, 32767] {
            self.plain(5, &[v], 0, false, &format!("i32 {v}"));
        }
        for v in [i64::from(i32::MIN), -2, 10, 65536, i64::from(i32::MAX)] {
            self.plain(6, &[v], 0, false, &format!("i32 {v}"));
        }
        for v in [i64::MIN, -1, 0, 1 << 40, i64::MAX] {
            self.plain(7, &[v], 0, v == -1, &format!("i64 {v}"));
        }
        for v in [0, 127, 128, 255] {
            self.plain(8, &[v], 0, false, &format!("u32 {v}"));
        }
        for v in [0, 32768, 65535] {
            self.plain(9, &[v], 0, false, &format!("u32 {v}"));
        }
        for v in [0, 1 << 31, i64::from(u32::MAX)] {
            self.plain(10, &[v], 0, false, &format!("u32 {v}"));
        }
        for v in [0u64, 1, 1 << 32, 1 << 63, u64::MAX] {
            self.plain(11, &[v as i64], 0, false, &format!("u64 {v}"));
        }
        for f in [0.0f32, -0.0, 1.0, -1.5, 0.1, 0.25, 0.001, 1e-7, 16777216.0, 123456.79, 1e10, 3.4e38, f32::MIN_POSITIVE, f32::MIN] {
            self.plain(12, &[i64::from(f.to_bits())], 0, f == -1.5, &format!("f32 {:08x}", f.to_bits()));
        }
        for f in [0.0f64, 1.0, -2.5, 0.1, 0.125, 1e-9, 1e15, 123456789.123, 1e300, f64::MIN_POSITIVE] {
            self.plain(13, &[f.to_bits() as i64], 0, false, &format!("f64 {:016x}", f.to_bits()));
        }
        for (i, s) in ["", "abc", "a\"b\\c", "\n\t\r\u{0}\u{7f}'", "zażółć €😀", "\\(x)", "\\u{41}"].into_iter().enumerate() {
            let r: Ref<str> = Ref::from(s);
            let idx = [
                u32::from(self.pool.names.add(r.clone())),
                u32::from(self.pool.strings.add(r.clone())),
                u32::from(self.pool.tweakdb_ids.add(r.clone())),
                u32::from(self.pool.resources.add(r)),
            ];
            for (op, k, h) in [(14, 0, "name"), (16, 1, "str"), (17, 2, "tdb"), (18, 3, "res")] {
                // the first name is the empty one and reads as None
                self.plain(op, &[i64::from(idx[k])], 0, i == 1 && op == 16, &format!("{h} {s:?}"));
            }
        }
        self.plain(19, &[], 0, false, "bool true");
        self.plain(20, &[], 0, false, "bool false");
        for m in ["M1", "M2"] {
            let i = MInstr::ints(15, &[i64::from(self.id("En")), i64::from(self.id(m))]);
            self.push(m, How::Plain(i), 0, m == "M1", move |_| w(format!("member {m}"), vec![w("id En", vec![])]));
        }
        // object fields and struct fields
        for f in ["fa", "fb"] {
            let i = MInstr::ints(26, &[i64::from(self.id(f))]);
            self.push(f, How::Plain(i.clone()), 0, f == "fa", move |_| w(format!("member {f}"), vec![w("this", vec![])]));
            self.push(&format!("ctx {f}"), How::Context(Box::new(How::Plain(i))), 1, f == "fa", move |k| w(format!("member {f}"), k));
        }
        let sf = i64::from(self.id("sf"));
        self.plain(40, &[sf], 1, true, "member sf");
        // conditional expression
        self.push("conditional", How::Conditional, 3, true, |k| w("cond", k));
        // construction
        self.plain(48, &[ia], 0, true, "new A");
        for n in 0..4 {
            self.plain(35, &[n, is], n as usize, n == 2, "new S");
        }
        // casts
        for (fl, c) in [(0, "A"), (1, "A"), (0, "S")] {
            let i = i64::from(self.id(c));
            self.plain(90, &[i, fl], 1, c == "A" && fl == 0, &format!("cast {c}"));
        }
        // operations written as calls
        let call = |n: &str, t: &str| format!("call {n} <{t}>");
        for op in [42, 43, 44] {
            self.plain(op, &[int], 2, op == 42, &call("Equals", ""));
        }
        for op in [45, 46, 47] {
            self.plain(op, &[int], 2, false, &call("NotEquals", ""));
        }
        self.plain(49, &[], 1, false, &call("Delete", ""));
        for (ops, n, name) in [
            (&[52][..], 1, "ArrayClear"),
            (&[53, 75], 1, "ArraySize"),
            (&[54], 2, "ArrayResize"),
            (&[55, 56, 76, 77], 2, "ArrayFindFirst"),
            (&[57, 58, 78, 79], 2, "ArrayFindLast"),
            (&[59, 60, 80, 81], 2, "ArrayContains"),
            (&[61, 62, 82, 83], 2, "ArrayCount"),
            (&[63], 2, "ArrayPush"),
            (&[64], 1, "ArrayPop"),
            (&[65], 3, "ArrayInsert"),
            (&[66, 67], 2, "ArrayRemove"),
            (&[68], 2, "ArrayGrow"),
            (&[69, 70], 2, "ArrayErase"),
            (&[71, 84], 1, "ArrayLast"),
            (&[73], 1, "ArraySort"),
            (&[74], 2, "ArraySortByPredicate"),
            (&[91], 1, "ToString"),
            (&[92], 1, "ToVariant"),
            (&[102], 1, "AsRef"),
            (&[103], 1, "Deref"),
        ] {
            for op in ops {
                self.plain(*op, &[int], n, *op == 65 || *op == 102, &call(name, ""));
            }
        }
        for op in [72, 85] {
            self.plain(op, &[int], 2, op == 72, "elem");
        }
        for op in [86, 87, 94] {
            self.plain(op, &[], 1, op == 86, &call("IsDefined", ""));
        }
        self.plain(98, &[], 1, false, &call("ToString", ""));
        for (op, n) in [(95, "VariantIsRef"), (96, "VariantIsArray"), (97, "VariantTypeName"), (99, "WeakRefToRef"), (100, "RefToWeakRef")] {
            self.plain(op, &[], 1, op == 99, &call(n, ""));
        }
        let en = i64::from(self.id("En"));
        self.plain(88, &[en, 4], 1, false, &call("EnumInt", ""));
        self.plain(89, &[en, 4], 1, true, &call("IntEnum", "En"));
        for (t, p) in [("Int32", "Int32"), ("ref:A", "ref<A>"), ("array:ref:A", "array<ref<A>>")] {
            let i = i64::from(self.id(t));
            self.plain(93, &[i], 1, t == "array:ref:A", &call("FromVariant", p));
        }
        let _ = refa;
        // calls
        let st = |x: &Self, k: &str| How::Invoke { op: 36, target: i64::from(x.id(k)), flags: 0 };
        for n in 0..4 {
            let h = st(self, "glob");
            self.push("glob", h, n, n == 2, |k| w("call Glob;Int32Int32 <>", k));
        }
        let h = st(self, "bare");
        self.push("bare", h, 1, false, |k| w("call Bare <>", k));
        let h = st(self, "Cast");
        self.push("cast fn", h, 1, true, |k| w("call Cast;Float;Int32 <Int32>", k));
        let h = st(self, "Cast2");
        self.push("cast fn 2", h, 1, false, |k| w("call Cast;Float;array:ref:A <array<ref<A>>>", k));
        let h = st(self, "Castle");
        self.push("castle", h, 1, false, |k| w("call Castle;Float <>", k));
        for (key, recv, name, ns) in [
            ("smeth", "id A", "SMeth;Int32", &[0usize, 1, 2][..]),
            ("meth", "this", "Meth;Int32", &[0, 1, 2]),
            ("bmeth", "this", "BMeth;", &[0]),
            ("supertest", "super", "Test;Int32", &[0, 1]),
            ("latertest", "super", "Test;Int32", &[1]),
            ("lmeth", "this", "LMeth;Int32", &[1]),
            ("test2", "this", "Test;", &[0]),
            ("castm", "id A", "Cast;Float;Int32", &[1]),
            ("self", "this", "Test;Int32", &[1]),
            ("ssupertest", "id Base", "Test;Int32", &[1]),
        ] {
            for n in ns {
                let h = st(self, key);
                self.push(key, h, *n, ["smeth", "meth", "bmeth", "supertest"].contains(&key) && *n == 1, move |mut k| {
                    k.insert(0, w(recv, vec![]));
                    w(format!("method {name}"), k)
                });
                // the same on another object
                if !["smeth", "ssupertest", "castm"].contains(&key) {
                    let h = How::Context(Box::new(st(self, key)));
                    self.push(&format!("ctx {key}"), h, *n + 1, *n == 1 && key == "meth", move |k| w(format!("method {name}"), k));
                }
            }
        }
        let vn = i64::from(u32::from(self.name("Virt;Int32")));
        for n in 0..3usize {
            let h = How::Invoke { op: 37, target: vn, flags: 0 };
            self.push("virtual", h, n, n == 1, |mut k| {
                k.insert(0, w("this", vec![]));
                w("method Virt;Int32", k)
            });
            let h = How::Context(Box::new(How::Invoke { op: 37, target: vn, flags: 0 }));
            self.push("ctx virtual", h, n + 1, n == 1, |k| w("method Virt;Int32", k));
        }
        for (n, _) in BINARY {
            let h = st(self, n);
            let head = format!("call {n};Int32Int32;Int32 <>");
            self.push(n, h, 2, true, move |k| w(head.clone(), k));
        }
        for (n, _) in UNARY {
            let h = st(self, n);
            let head = format!("call {n};Int32;Int32 <>");
            self.push(n, h, 1, true, move |k| w(head.clone(), k));
        }
        // statements
        let first = self.forms.len();
        self.plain(22, &[], 2, true, "assign");
        self.plain(39, &[], 1, true, "return");
        for f in &mut self.forms[first..] {
            f.value = false;
        }
    }

    /// numbers have no members and are not cast to classes or turned into references
    pub fn is_number(&self, form: usize) -> bool {
        matches!(&self.forms[form].how, How::Plain(i) if (2..=13).contains(&i.op))
    }
    pub fn takes_object(&self, form: usize) -> bool {
        match &self.forms[form].how {
            How::Plain(i) => [40, 72, 85, 90, 99, 100, 102].contains(&i.op),
            How::Context(_) => true,
            _ => false,
        }
    }

    pub fn leaf(&self, i: usize) -> Node {
        Node { form: i % 4, kids: vec![] }
    }

    pub fn want(&self, n: &Node) -> W {
        (self.forms[n.form].want)(n.kids.iter().map(|k| self.want(k)).collect())
    }

    pub fn emit(&self, a: &mut Asm, n: &Node, lead: u8) {
        self.emit_how(a, &self.forms[n.form].how, &n.kids, lead);
    }

    fn emit_how(&self, a: &mut Asm, how: &How, kids: &[Node], lead: u8) {
        match how {
            How::Plain(i) => {
                a.raw(i.clone());
                for k in kids {
                    self.emit(a, k, lead);
                }
            }
            How::Conditional => {
                let (f, x) = (a.label(), a.label());
                a.jump(34, &[0, 0], &[(0, f), (1, x)]);
                self.emit(a, &kids[0], lead);
                self.emit(a, &kids[1], lead);
                a.place(f);
                self.emit(a, &kids[2], lead);
                a.place(x);
            }
            How::Invoke { op, target, flags } => {
                let l = a.label();
                a.jump(*op, &[0, 7, *target, *flags], &[(0, l)]);
                for k in kids {
                    // an argument may be preceded by the jump over it and may be padded
                    let skip = a.label();
                    if lead & 1 != 0 {
                        a.jump(33, &[0], &[(0, skip)]);
                    }
                    if lead & 2 != 0 {
                        a.op(0, &[]);
                    }
                    self.emit(a, k, lead);
                    a.place(skip);
                }
                if lead & 2 != 0 {
                    a.op(0, &[]);
                }
                a.op(38, &[]);
                a.place(l);
            }
            How::Context(inner) => {
                let l = a.label();
                a.jump(41, &[0], &[(0, l)]);
                self.emit(a, &kids[0], lead);
                self.emit_how(a, inner, &kids[1..], lead);
                a.place(l);
            }
        }
    }

    pub fn function(&mut self) -> &mut Function {
        self.pool.function_mut(PoolIndex::new(self.fun)).expect("harness: function")
    }
    pub fn definition(&self) -> &Definition {
        self.pool.definition(PoolIndex::<Function>::new(self.fun)).expect("harness: function")
    }
}
