//! The harness's own language: abstract programs, their text, and a reference interpreter that
//! gives them their meaning. Nothing in here comes from the compiler.
use std::collections::HashMap;
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    I32,
    Bool,
    Str,
    Float,
    Name,
    Variant,
    Void,
    I64,
    U32,
    U64,
    Double,
    Ref(&'static str),
    WRef(&'static str),
    Struct(&'static str),
    Enum(&'static str),
    Arr(Box<Ty>),
    SRef(Box<Ty>),
}

impl Ty {
    pub fn text(&self) -> String {
        match self {
            Ty::I32 => "Int32".into(),
            Ty::Bool => "Bool".into(),
            Ty::Str => "String".into(),
            Ty::Float => "Float".into(),
            Ty::Name => "CName".into(),
            Ty::Variant => "Variant".into(),
            Ty::Void => "Void".into(),
            Ty::I64 => "Int64".into(),
            Ty::U32 => "Uint32".into(),
            Ty::U64 => "Uint64".into(),
            Ty::Double => "Double".into(),
            Ty::Ref(c) => format!("ref<{c}>"),
            Ty::WRef(c) => format!("wref<{c}>"),
            Ty::Struct(c) | Ty::Enum(c) => (*c).to_owned(),
            Ty::Arr(t) => format!("array<{}>", t.text()),
            Ty::SRef(t) => format!("script_ref<{}>", t.text()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    /// what a local holds before anything was stored in it
    Uninit,
    Int(i32),
    Bool(bool),
    Str(Rc<str>),
    Float(f32),
    Double(f64),
    I64(i64),
    U32(u32),
    U64(u64),
    Name(Rc<str>),
    Null,
    Obj(usize),
    /// weak references are told apart in the machine only
    WNull,
    WObj(usize),
    Struct(Rc<str>, Vec<Val>),
    Enum(Rc<str>, i64),
    Arr(Vec<Val>),
    Variant(Box<Val>),
    SRef(Box<Val>),
}

impl Val {
    /// what a program can tell apart
    pub fn canon(&self) -> Val {
        match self {
            Val::WNull => Val::Null,
            Val::WObj(o) => Val::Obj(*o),
            Val::SRef(v) => v.canon(),
            Val::Struct(n, vs) => Val::Struct(n.clone(), vs.iter().map(Val::canon).collect()),
            Val::Arr(vs) => Val::Arr(vs.iter().map(Val::canon).collect()),
            Val::Variant(v) => Val::Variant(Box::new(v.canon())),
            v => v.clone(),
        }
    }

    pub fn text(&self) -> String {
        match self {
            Val::Int(i) => i.to_string(),
            Val::Bool(b) => b.to_string(),
            Val::Str(s) | Val::Name(s) => s.to_string(),
            Val::Float(f) => format!("{f}f"),
            Val::SRef(v) => v.text(),
            Val::Enum(n, v) => format!("{n}::{v}"),
            v => format!("{:?}", v.canon()),
        }
    }
}

pub fn s(x: &str) -> Rc<str> {
    Rc::from(x)
}

#[derive(Clone, Debug)]
pub enum E {
    /// a literal: its text and what it is worth where it stands
    Lit(String, Val),
    Null,
    This,
    Var(&'static str),
    Bin(&'static str, Box<E>, Box<E>),
    Un(&'static str, Box<E>),
    /// key: the name, and after a '#' what tells overloads apart
    Call(&'static str, Vec<E>),
    Method(Box<E>, &'static str, Vec<E>),
    Super(&'static str, Vec<E>),
    Static(&'static str, &'static str, Vec<E>),
    Field(Box<E>, &'static str),
    Index(Box<E>, Box<E>),
    New(&'static str),
    Make(&'static str, Vec<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Assign(Box<E>, Box<E>),
    OpAssign(&'static str, Box<E>, Box<E>),
    ArrLit(Vec<E>),
    Cast(Box<E>, &'static str),
    Interp(String, Vec<(E, String)>),
    EnumLit(&'static str, &'static str, i64),
    /// an intrinsic; the type argument, if any, and a default value where one is needed
    Intr(&'static str, Option<Ty>, Vec<E>, Val),
    /// a conversion the text does not show
    ToVariant(Box<E>),
    /// text that stands for itself, with the given meaning
    Paren(Box<E>),
}

#[derive(Clone, Debug)]
pub enum St {
    Ex(E),
    Let(&'static str, Option<Ty>, Option<E>, Val),
    If(E, Vec<St>, Option<Vec<St>>),
    While(E, Vec<St>),
    For(&'static str, E, Vec<St>),
    Switch(E, Vec<(E, Vec<St>)>, Option<Vec<St>>),
    Break,
    Return(Option<E>),
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: &'static str,
    pub ty: Ty,
    pub out: bool,
    pub opt: bool,
}

pub fn par(name: &'static str, ty: Ty) -> Param {
    Param { name, ty, out: false, opt: false }
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub key: &'static str,
    pub quals: &'static str,
    pub params: Vec<Param>,
    pub ret: Option<Ty>,
    pub body: Vec<St>,
    pub default_ret: Option<Val>,
}

#[derive(Clone, Debug, Default)]
pub struct Class {
    pub name: &'static str,
    pub base: Option<&'static str>,
    pub fields: Vec<(&'static str, Ty, Val)>,
    pub methods: Vec<Func>,
    pub is_struct: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub classes: Vec<Class>,
    pub funcs: Vec<Func>,
}

pub fn lit(i: i32) -> E {
    E::Lit(i.to_string(), Val::Int(i))
}
pub fn boolean(b: bool) -> E {
    E::Lit(b.to_string(), Val::Bool(b))
}
pub fn string(x: &str) -> E {
    E::Lit(format!("\"{x}\""), Val::Str(s(x)))
}
pub fn b(e: E) -> Box<E> {
    Box::new(e)
}

// ---------------------------------------------------------------- text

fn shown(key: &str) -> &str {
    key.split('#').next().unwrap()
}

pub fn expr(e: &E) -> String {
    let list = |es: &[E]| es.iter().map(expr).collect::<Vec<_>>().join(", ");
    let atom = |e: &E| match e {
        E::Bin(..) | E::Un(..) | E::Cond(..) | E::Assign(..) | E::OpAssign(..) => format!("({})", expr(e)),
        E::ToVariant(x) if matches!(**x, E::Bin(..) | E::Un(..) | E::Cond(..) | E::Assign(..) | E::OpAssign(..)) => {
            format!("({})", expr(e))
        }
        E::Lit(t, _) if t.starts_with('-') => format!("({t})"),
        _ => expr(e),
    };
    match e {
        E::Lit(t, _) => t.clone(),
        E::Null => "null".into(),
        E::This => "this".into(),
        E::Var(n) => (*n).to_owned(),
        E::Bin(op, l, r) => format!("{} {op} {}", atom(l), atom(r)),
        E::Un(op, x) => format!("{op}{}", atom(x)),
        E::Call(k, args) => format!("{}({})", shown(k), list(args)),
        E::Method(r, k, args) => format!("{}.{}({})", atom(r), shown(k), list(args)),
        E::Super(k, args) => format!("super.{}({})", shown(k), list(args)),
        E::Static(c, k, args) => format!("{c}.{}({})", shown(k), list(args)),
        E::Field(r, n) => format!("{}.{n}", atom(r)),
        E::Index(a, i) => format!("{}[{}]", atom(a), expr(i)),
        E::New(c) => format!("new {c}()"),
        E::Make(c, args) => format!("new {c}({})", list(args)),
        E::Cond(c, x, y) => format!("{} ? {} : {}", atom(c), atom(x), atom(y)),
        E::Assign(l, r) => format!("{} = {}", atom(l), atom(r)),
        E::OpAssign(op, l, r) => format!("{} {op}= {}", atom(l), atom(r)),
        E::ArrLit(es) => format!("[{}]", list(es)),
        E::Cast(x, c) => format!("{} as {c}", atom(x)),
        E::Interp(p, parts) => {
            let mut o = format!("s\"{p}");
            for (x, t) in parts {
                write!(o, "\\({}){t}", expr(x)).unwrap();
            }
            o.push('"');
            o
        }
        E::EnumLit(n, m, _) => format!("{n}.{m}"),
        E::Intr(n, None, args, _) => format!("{n}({})", list(args)),
        E::Intr(n, Some(t), args, _) => format!("{n}<{}>({})", t.text(), list(args)),
        E::ToVariant(x) => expr(x),
        E::Paren(x) => format!("({})", expr(x)),
    }
}

fn block(out: &mut String, ss: &[St]) {
    out.push_str("{ ");
    for x in ss {
        stmt(out, x);
    }
    out.push_str("} ");
}

pub fn stmt(out: &mut String, st: &St) {
    match st {
        St::Ex(e) => write!(out, "{}; ", expr(e)).unwrap(),
        St::Let(n, ty, init, _) => {
            write!(out, "let {n}").unwrap();
            if let Some(t) = ty {
                write!(out, ": {}", t.text()).unwrap();
            }
            if let Some(e) = init {
                write!(out, " = {}", expr(e)).unwrap();
            }
            out.push_str("; ");
        }
        St::If(c, t, e) => {
            write!(out, "if {} ", expr(c)).unwrap();
            block(out, t);
            if let Some(e) = e {
                out.push_str("else ");
                match &e[..] {
                    [x @ St::If(..)] => stmt(out, x),
                    _ => block(out, e),
                }
            }
        }
        St::While(c, body) => {
            write!(out, "while {} ", expr(c)).unwrap();
            block(out, body);
        }
        St::For(n, a, body) => {
            write!(out, "for {n} in {} ", expr(a)).unwrap();
            block(out, body);
        }
        St::Switch(e, cases, default) => {
            write!(out, "switch {} {{ ", expr(e)).unwrap();
            for (m, body) in cases {
                write!(out, "case {}: ", expr(m)).unwrap();
                for x in body {
                    stmt(out, x);
                }
            }
            if let Some(d) = default {
                out.push_str("default: ");
                for x in d {
                    stmt(out, x);
                }
            }
            out.push_str("} ");
        }
        St::Break => out.push_str("break; "),
        St::Return(None) => out.push_str("return; "),
        St::Return(Some(e)) => write!(out, "return {}; ", expr(e)).unwrap(),
    }
}

pub fn func(out: &mut String, f: &Func) {
    let ps: Vec<String> = f
        .params
        .iter()
        .map(|p| {
            format!(
                "{}{}{}: {}",
                if p.out { "out " } else { "" },
                if p.opt { "opt " } else { "" },
                p.name,
                p.ty.text()
            )
        })
        .collect();
    write!(out, "{}func {}({})", f.quals, shown(f.key), ps.join(", ")).unwrap();
    if let Some(r) = &f.ret {
        write!(out, " -> {}", r.text()).unwrap();
    }
    out.push(' ');
    block(out, &f.body);
    out.push('\n');
}

pub fn class(out: &mut String, c: &Class) {
    write!(out, "public {} {} ", if c.is_struct { "struct" } else { "class" }, c.name).unwrap();
    if let Some(x) = c.base {
        write!(out, "extends {x} ").unwrap();
    }
    out.push_str("{ ");
    for (n, t, _) in &c.fields {
        write!(out, "public let {n}: {}; ", t.text()).unwrap();
    }
    for m in &c.methods {
        func(out, m);
    }
    out.push_str("}\n");
}

pub fn prog(p: &Prog) -> String {
    let mut o = String::new();
    for c in &p.classes {
        class(&mut o, c);
    }
    for f in &p.funcs {
        func(&mut o, f);
    }
    o
}

// ---------------------------------------------------------------- the world outside the program

/// What the native functions see and say.
#[derive(Default, Clone)]
pub struct World {
    pub log: Vec<String>,
    pub tape: Vec<(u8, u8)>,
    pub pos: usize,
    pub limit: usize,
    pub fuel: usize,
}

pub enum Stop {
    /// the answers ran out: the run ends here
    Cut,
    /// the machine did something no program may do
    Bad(String),
}

impl World {
    pub fn new(limit: usize) -> Self {
        World { limit, fuel: 4000, ..World::default() }
    }
    pub fn reset(&mut self) {
        self.log.clear();
        self.pos = 0;
        self.fuel = 4000;
    }
    pub fn answer(&mut self, arity: u8) -> Result<u8, Stop> {
        if self.pos >= self.limit {
            return Err(Stop::Cut);
        }
        if self.pos == self.tape.len() {
            self.tape.push((0, arity));
        }
        let (v, n) = self.tape[self.pos];
        if n != arity {
            return Err(Stop::Bad("asked another question than the program does".into()));
        }
        self.pos += 1;
        Ok(v)
    }
    /// the next tape, in order
    pub fn advance(&mut self) -> bool {
        self.tape.truncate(self.pos);
        while let Some((v, n)) = self.tape.pop() {
            if v + 1 < n {
                self.tape.push((v + 1, n));
                return true;
            }
        }
        false
    }
    pub fn burn(&mut self) -> Result<(), Stop> {
        if self.fuel == 0 {
            return Err(Stop::Bad("does not come to an end".into()));
        }
        self.fuel -= 1;
        Ok(())
    }
    /// the probes of the prelude
    pub fn probe(&mut self, name: &str, args: &[Val]) -> Option<Result<Val, Stop>> {
        let show = |a: &[Val]| a.iter().map(|v| format!("{:?}", v.canon())).collect::<Vec<_>>().join(",");
        Some(match (name, args) {
            ("C", [Val::Int(k)]) => {
                let k = *k;
                self.answer(2).map(|v| {
                    self.log.push(format!("C{k}={v}"));
                    Val::Bool(v == 1)
                })
            }
            ("N", [Val::Int(k)]) => {
                let k = *k;
                self.answer(4).map(|v| {
                    self.log.push(format!("N{k}={v}"));
                    Val::Int(i32::from(v))
                })
            }
            ("V" | "VB" | "VS" | "VF" | "VA" | "VO", [v]) => {
                self.log.push(format!("{name}({})", show(args)));
                Ok(v.clone())
            }
            ("T" | "TB" | "TS" | "TF" | "TA" | "TO" | "TW" | "TP" | "TE" | "TV" | "TN" | "TR" | "TL" | "TD" | "TU", _) => {
                self.log.push(format!("{name}({})", show(args)));
                Ok(Val::Unit)
            }
            _ => return None,
        })
    }
}

/// the operators of the prelude
pub fn operate(op: &str, l: &Val, r: &Val) -> Option<Val> {
    use Val::*;
    Some(match (op, l, r) {
        ("+", Int(a), Int(b)) => Int(a.wrapping_add(*b)),
        ("-", Int(a), Int(b)) => Int(a.wrapping_sub(*b)),
        ("*", Int(a), Int(b)) => Int(a.wrapping_mul(*b)),
        ("/", Int(a), Int(b)) => Int(if *b == 0 { 0 } else { a.wrapping_div(*b) }),
        ("%", Int(a), Int(b)) => Int(if *b == 0 { 0 } else { a.wrapping_rem(*b) }),
        ("|", Int(a), Int(b)) => Int(a | b),
        ("&", Int(a), Int(b)) => Int(a & b),
        ("^", Int(a), Int(b)) => Int(a ^ b),
        ("==", Int(a), Int(b)) => Bool(a == b),
        ("!=", Int(a), Int(b)) => Bool(a != b),
        ("<", Int(a), Int(b)) => Bool(a < b),
        ("<=", Int(a), Int(b)) => Bool(a <= b),
        (">", Int(a), Int(b)) => Bool(a > b),
        (">=", Int(a), Int(b)) => Bool(a >= b),
        ("+", Float(a), Float(b)) => Float(a + b),
        ("-", Float(a), Float(b)) => Float(a - b),
        ("*", Float(a), Float(b)) => Float(a * b),
        ("<", Float(a), Float(b)) => Bool(a < b),
        ("+", Str(a), Str(b)) => Str(Rc::from(format!("{a}{b}"))),
        ("==", Bool(a), Bool(b)) => Bool(a == b),
        ("!=", Bool(a), Bool(b)) => Bool(a != b),
        ("&&", Bool(a), Bool(b)) => Bool(*a && *b),
        ("||", Bool(a), Bool(b)) => Bool(*a || *b),
        ("==", Name(a), Name(b)) => Bool(a == b),
        _ => return None,
    })
}

pub fn operate1(op: &str, v: &Val) -> Option<Val> {
    use Val::*;
    Some(match (op, v) {
        ("-", Int(a)) => Int(a.wrapping_neg()),
        ("-", Float(a)) => Float(-a),
        ("!", Bool(a)) => Bool(!a),
        ("~", Int(a)) => Int(!a),
        _ => return None,
    })
}

// ---------------------------------------------------------------- meaning

#[derive(Clone, Debug, PartialEq)]
pub enum Base {
    Cell(usize),
    Obj(usize, Rc<str>),
    /// no place at all: what is stored there is lost
    Nowhere,
}

#[derive(Clone, Debug)]
pub struct Place {
    pub base: Base,
    pub path: Vec<usize>,
}

pub fn walk<'a>(v: &'a Val, path: &[usize]) -> Option<&'a Val> {
    path.iter().try_fold(v, |v, i| match v {
        Val::Struct(_, fs) => fs.get(*i),
        Val::Arr(xs) => xs.get(*i),
        _ => None,
    })
}

pub fn walk_mut<'a>(v: &'a mut Val, path: &[usize]) -> Option<&'a mut Val> {
    path.iter().try_fold(v, |v, i| match v {
        Val::Struct(_, fs) => fs.get_mut(*i),
        Val::Arr(xs) => xs.get_mut(*i),
        _ => None,
    })
}

/// Cells and objects, shared by the interpreter and the machine.
#[derive(Default, Clone)]
pub struct Store {
    pub cells: Vec<Val>,
    pub objs: Vec<(Rc<str>, HashMap<Rc<str>, Val>)>,
}

impl Store {
    pub fn cell(&mut self, v: Val) -> usize {
        self.cells.push(v);
        self.cells.len() - 1
    }
    pub fn slot(&mut self, p: &Place) -> Option<&mut Val> {
        let root = match &p.base {
            Base::Cell(c) => &mut self.cells[*c],
            Base::Obj(o, f) => self.objs[*o].1.get_mut(f)?,
            Base::Nowhere => return None,
        };
        walk_mut(root, &p.path)
    }
    pub fn get(&self, p: &Place) -> Option<Val> {
        let root = match &p.base {
            Base::Cell(c) => &self.cells[*c],
            Base::Obj(o, f) => self.objs[*o].1.get(f)?,
            Base::Nowhere => return None,
        };
        walk(root, &p.path).cloned()
    }
}

enum Flow {
    Next,
    Break,
    Return(Val),
}

pub struct Interp<'a> {
    pub prog: &'a Prog,
    pub store: Store,
    pub world: &'a mut World,
    structs: HashMap<&'static str, Vec<&'static str>>,
}

struct Frame {
    /// names in scope, the innermost last
    vars: Vec<(&'static str, Place)>,
    this: Option<usize>,
    class: Option<&'static str>,
}

type R<T> = Result<T, Stop>;

fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Bad(format!("reference: {}", m.into())))
}

impl<'a> Interp<'a> {
    pub fn new(prog: &'a Prog, world: &'a mut World) -> Self {
        let structs = prog
            .classes
            .iter()
            .filter(|c| c.is_struct)
            .map(|c| (c.name, c.fields.iter().map(|f| f.0).collect()))
            .collect();
        Interp { prog, store: Store::default(), world, structs }
    }

    fn class(&self, n: &str) -> &'a Class {
        self.prog.classes.iter().find(|c| c.name == n).unwrap_or_else(|| panic!("harness: class {n}"))
    }

    fn method(&self, class: &str, key: &str) -> Option<(&'a Class, &'a Func)> {
        let mut c = Some(class);
        while let Some(n) = c {
            let cl = self.class(n);
            if let Some(f) = cl.methods.iter().find(|f| f.key == key) {
                return Some((cl, f));
            }
            c = cl.base;
        }
        None
    }

    fn is_a(&self, class: &str, of: &str) -> bool {
        let mut c = Some(class);
        while let Some(n) = c {
            if n == of {
                return true;
            }
            c = self.class(n).base;
        }
        of == "IScriptable"
    }

    pub fn run(&mut self, entry: &str) -> R<Val> {
        let f = self.prog.funcs.iter().find(|f| f.key == entry).expect("entry");
        self.invoke(f, None, None, vec![])
    }

    fn invoke(&mut self, f: &'a Func, this: Option<usize>, class: Option<&'static str>, args: Vec<Place>) -> R<Val> {
        self.world.burn()?;
        let mut fr = Frame { vars: vec![], this, class };
        for (p, a) in f.params.iter().zip(args) {
            fr.vars.push((p.name, a));
        }
        Ok(match self.seq(&f.body, &mut fr)? {
            Flow::Return(v) => v,
            _ => f.default_ret.clone().unwrap_or(Val::Unit),
        })
    }

    fn seq(&mut self, ss: &'a [St], fr: &mut Frame) -> R<Flow> {
        let mark = fr.vars.len();
        for x in ss {
            match self.stmt(x, fr)? {
                Flow::Next => {}
                f => {
                    fr.vars.truncate(mark);
                    return Ok(f);
                }
            }
        }
        fr.vars.truncate(mark);
        Ok(Flow::Next)
    }

    fn truth(&mut self, e: &'a E, fr: &mut Frame) -> R<bool> {
        match self.eval(e, fr)? {
            Val::Bool(b) => Ok(b),
            v => bad(format!("condition {v:?}")),
        }
    }

    fn stmt(&mut self, st: &'a St, fr: &mut Frame) -> R<Flow> {
        self.world.burn()?;
        match st {
            St::Ex(e) => {
                self.eval(e, fr)?;
            }
            St::Let(n, _, init, default) => {
                let v = match init {
                    Some(e) => self.eval(e, fr)?,
                    None => default.clone(),
                };
                let c = self.store.cell(v);
                fr.vars.push((n, Place { base: Base::Cell(c), path: vec![] }));
            }
            St::If(c, t, e) => {
                if self.truth(c, fr)? {
                    return self.seq(t, fr);
                } else if let Some(e) = e {
                    return self.seq(e, fr);
                }
            }
            St::While(c, body) => {
                while self.truth(c, fr)? {
                    self.world.burn()?;
                    match self.seq(body, fr)? {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            St::For(n, a, body) => {
                let Val::Arr(xs) = self.eval(a, fr)? else { return bad("for over no array") };
                for x in xs {
                    let c = self.store.cell(x);
                    fr.vars.push((n, Place { base: Base::Cell(c), path: vec![] }));
                    let f = self.seq(body, fr)?;
                    fr.vars.pop();
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            St::Switch(e, cases, default) => {
                let v = self.eval(e, fr)?;
                let mut hit = None;
                for (i, (m, _)) in cases.iter().enumerate() {
                    if self.eval(m, fr)?.canon() == v.canon() {
                        hit = Some(i);
                        break;
                    }
                }
                // a case without statements shares the body that follows it
                let bodies: Vec<&'a [St]> = match hit {
                    Some(i) => cases[i..].iter().map(|c| &c.1[..]).chain(default.iter().map(|d| &d[..])).collect(),
                    None => default.iter().map(|d| &d[..]).collect(),
                };
                for body in bodies {
                    match self.seq(body, fr)? {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            St::Break => return Ok(Flow::Break),
            St::Return(None) => return Ok(Flow::Return(Val::Unit)),
            St::Return(Some(e)) => return Ok(Flow::Return(self.eval(e, fr)?)),
        }
        Ok(Flow::Next)
    }

    fn place(&mut self, e: &'a E, fr: &mut Frame) -> R<Place> {
        match e {
            E::Var(n) => match fr.vars.iter().rev().find(|(x, _)| x == n) {
                Some((_, p)) => Ok(p.clone()),
                None => bad(format!("no variable {n}")),
            },
            E::Paren(x) => self.place(x, fr),
            E::Field(r, n) => {
                // a field of an object, or a part of a structure
                let inner = match &**r {
                    E::Var(_) | E::Field(..) | E::Index(..) => {
                        let p = self.place(r, fr)?;
                        match self.store.get(&p) {
                            None => return Ok(Place { base: Base::Nowhere, path: vec![] }),
                            Some(v) => (Some(p), v),
                        }
                    }
                    _ => (None, self.eval(r, fr)?),
                };
                match inner {
                    (_, Val::Obj(o)) => Ok(Place { base: Base::Obj(o, Rc::from(*n)), path: vec![] }),
                    (_, Val::Null) => Ok(Place { base: Base::Nowhere, path: vec![] }),
                    (p, Val::Struct(name, vs)) => {
                        let i = self.structs[&*name].iter().position(|f| f == n).expect("field");
                        let mut p = match p {
                            Some(p) => p,
                            None => {
                                let c = self.store.cell(Val::Struct(name, vs));
                                Place { base: Base::Cell(c), path: vec![] }
                            }
                        };
                        p.path.push(i);
                        Ok(p)
                    }
                    (_, v) => bad(format!("field {n} of {v:?}")),
                }
            }
            E::Index(a, i) => {
                let mut p = match &**a {
                    E::Var(_) | E::Field(..) | E::Index(..) => self.place(a, fr)?,
                    _ => {
                        let v = self.eval(a, fr)?;
                        let c = self.store.cell(v);
                        Place { base: Base::Cell(c), path: vec![] }
                    }
                };
                let Val::Int(i) = self.eval(i, fr)? else { return bad("index") };
                p.path.push(i as usize);
                Ok(p)
            }
            _ => {
                let v = self.eval(e, fr)?;
                let c = self.store.cell(v);
                Ok(Place { base: Base::Cell(c), path: vec![] })
            }
        }
    }

    fn args(&mut self, params: &'a [Param], args: &'a [E], fr: &mut Frame) -> R<Vec<Place>> {
        let mut out = vec![];
        for (p, a) in params.iter().zip(args) {
            if p.out {
                out.push(self.place(a, fr)?);
            } else {
                let v = self.eval(a, fr)?;
                let c = self.store.cell(v);
                out.push(Place { base: Base::Cell(c), path: vec![] });
            }
        }
        for p in &params[args.len().min(params.len())..] {
            let c = self.store.cell(default_of(&p.ty));
            out.push(Place { base: Base::Cell(c), path: vec![] });
        }
        Ok(out)
    }

    pub fn fresh(&mut self, class: &str) -> Val {
        let mut fields = HashMap::new();
        let mut c = Some(class);
        while let Some(n) = c {
            let cl = self.class(n);
            for (f, _, v) in &cl.fields {
                fields.insert(Rc::from(*f), v.clone());
            }
            c = cl.base;
        }
        self.store.objs.push((Rc::from(class), fields));
        Val::Obj(self.store.objs.len() - 1)
    }

    fn eval(&mut self, e: &'a E, fr: &mut Frame) -> R<Val> {
        self.world.burn()?;
        Ok(match e {
            E::Lit(_, v) => v.clone(),
            E::Null => Val::Null,
            E::This => Val::Obj(fr.this.expect("this")),
            E::Paren(x) => self.eval(x, fr)?,
            E::Var(_) | E::Field(..) | E::Index(..) => {
                let p = self.place(e, fr)?;
                match (self.store.get(&p), e) {
                    (Some(v), _) => v,
                    // outside of an array, or of a null object
                    (None, E::Index(..)) => Val::Int(0),
                    (None, E::Field(_, n)) => {
                        let f = self.prog.classes.iter().flat_map(|c| &c.fields).find(|f| f.0 == *n);
                        f.map_or(Val::Unit, |f| f.2.clone())
                    }
                    _ => Val::Unit,
                }
            }
            E::Bin(op @ ("&&" | "||"), l, r) => {
                let x = self.truth(l, fr)?;
                if x == (*op == "||") {
                    Val::Bool(x)
                } else {
                    Val::Bool(self.truth(r, fr)?)
                }
            }
            E::Bin(op, l, r) => {
                let l = self.eval(l, fr)?;
                let r = self.eval(r, fr)?;
                match operate(op, &l, &r) {
                    Some(v) => v,
                    None => return bad(format!("{l:?} {op} {r:?}")),
                }
            }
            E::Un(op, x) => {
                let x = self.eval(x, fr)?;
                match operate1(op, &x) {
                    Some(v) => v,
                    None => return bad(format!("{op}{x:?}")),
                }
            }
            E::Call(k, args) => {
                if let Some(f) = self.prog.funcs.iter().find(|f| f.key == *k) {
                    let a = self.args(&f.params, args, fr)?;
                    return self.invoke(f, None, None, a);
                }
                let mut vs = vec![];
                for a in args {
                    vs.push(self.eval(a, fr)?);
                }
                match self.world.probe(shown(k), &vs) {
                    Some(r) => r?,
                    None => return bad(format!("no function {k}")),
                }
            }
            E::Method(r, k, args) => match self.eval(r, fr)? {
                Val::Obj(o) => {
                    let cl = self.store.objs[o].0.clone();
                    let (c, f) = self.method(&cl, k).expect("method");
                    let a = self.args(&f.params, args, fr)?;
                    self.invoke(f, Some(o), Some(c.name), a)?
                }
                Val::Null => Val::Unit,
                v => return bad(format!("{k} of {v:?}")),
            },
            E::Super(k, args) => {
                let base = self.class(fr.class.expect("class")).base.expect("base");
                let (c, f) = self.method(base, k).expect("base method");
                let a = self.args(&f.params, args, fr)?;
                self.invoke(f, fr.this, Some(c.name), a)?
            }
            E::Static(c, k, args) => {
                let (c, f) = self.method(c, k).expect("static");
                let a = self.args(&f.params, args, fr)?;
                self.invoke(f, None, Some(c.name), a)?
            }
            E::New(c) => self.fresh(c),
            E::Make(c, args) => {
                let mut vs = vec![];
                for a in args {
                    vs.push(self.eval(a, fr)?);
                }
                Val::Struct(Rc::from(*c), vs)
            }
            E::Cond(c, x, y) => {
                if self.truth(c, fr)? {
                    self.eval(x, fr)?
                } else {
                    self.eval(y, fr)?
                }
            }
            E::Assign(l, r) => {
                let p = self.place(l, fr)?;
                let v = self.eval(r, fr)?;
                if let Some(slot) = self.store.slot(&p) {
                    *slot = v;
                }
                Val::Unit
            }
            E::OpAssign(op, l, r) => {
                let p = self.place(l, fr)?;
                let r = self.eval(r, fr)?;
                let l = self.store.get(&p).unwrap_or(Val::Int(0));
                match operate(op, &l, &r) {
                    Some(v) => {
                        if let Some(slot) = self.store.slot(&p) {
                            *slot = v.clone();
                        }
                        v
                    }
                    None if l == Val::Unit => Val::Unit,
                    None => return bad(format!("{l:?} {op}= {r:?}")),
                }
            }
            E::ArrLit(es) => {
                let mut vs = vec![];
                for x in es {
                    vs.push(self.eval(x, fr)?);
                }
                Val::Arr(vs)
            }
            E::Cast(x, c) => match self.eval(x, fr)? {
                Val::Obj(o) if self.is_a(&self.store.objs[o].0.clone(), c) => Val::Obj(o),
                _ => Val::Null,
            },
            E::Interp(p, parts) => {
                let mut o = p.clone();
                for (x, t) in parts {
                    let v = self.eval(x, fr)?;
                    o.push_str(&v.text());
                    o.push_str(t);
                }
                Val::Str(Rc::from(o))
            }
            E::EnumLit(n, _, v) => Val::Enum(Rc::from(*n), *v),
            E::ToVariant(x) => Val::Variant(Box::new(self.eval(x, fr)?.canon())),
            E::Intr(n, ty, args, default) => {
                // array operations work on the array in place
                if n.starts_with("Array") {
                    let p = self.place(&args[0], fr)?;
                    let mut vs = vec![];
                    for a in &args[1..] {
                        vs.push(self.eval(a, fr)?);
                    }
                    let Some(Val::Arr(mut xs)) = self.store.get(&p) else { return bad(format!("{n} on no array")) };
                    let r = array_op(n, &mut xs, &vs, default);
                    if let Some(slot) = self.store.slot(&p) {
                        *slot = Val::Arr(xs);
                    }
                    return match r {
                        Some(v) => Ok(v),
                        None => bad(*n),
                    };
                }
                let mut vs = vec![];
                for a in args {
                    vs.push(self.eval(a, fr)?);
                }
                match (*n, &vs[..]) {
                    ("Equals", [a, b]) => Val::Bool(a.canon() == b.canon()),
                    ("NotEquals", [a, b]) => Val::Bool(a.canon() != b.canon()),
                    ("ToString", [a]) => Val::Str(Rc::from(match a {
                        Val::Variant(v) => v.text(),
                        v => v.text(),
                    })),
                    ("EnumInt", [Val::Enum(_, v)]) => Val::Int(*v as i32),
                    ("IntEnum", [Val::Int(v)]) => match (ty, default) {
                        (Some(Ty::Enum(n)), _) => Val::Enum(Rc::from(*n), i64::from(*v)),
                        (_, Val::Enum(n, _)) => Val::Enum(n.clone(), i64::from(*v)),
                        _ => return bad("IntEnum"),
                    },
                    ("ToVariant", [v]) => Val::Variant(Box::new(v.canon())),
                    ("FromVariant", [Val::Variant(v)]) => (**v).clone(),
                    ("IsDefined", [Val::Null]) => Val::Bool(false),
                    ("IsDefined", [Val::Obj(_)]) => Val::Bool(true),
                    ("IsDefined", [Val::Variant(_)]) => Val::Bool(true),
                    ("VariantIsRef", [Val::Variant(v)]) => Val::Bool(matches!(**v, Val::Obj(_) | Val::Null)),
                    ("VariantIsArray", [Val::Variant(v)]) => Val::Bool(matches!(**v, Val::Arr(_))),
                    ("AsRef" | "Deref", [v]) => v.clone(),
                    _ => return bad(format!("{n} {vs:?}")),
                }
            }
        })
    }
}

pub fn default_of(t: &Ty) -> Val {
    match t {
        Ty::I32 => Val::Int(0),
        Ty::Bool => Val::Bool(false),
        Ty::Str => Val::Str(s("")),
        Ty::Float => Val::Float(0.0),
        Ty::Double => Val::Double(0.0),
        Ty::I64 => Val::I64(0),
        Ty::U32 => Val::U32(0),
        Ty::U64 => Val::U64(0),
        Ty::Name => Val::Name(s("")),
        Ty::Ref(_) | Ty::WRef(_) => Val::Null,
        Ty::Arr(_) => Val::Arr(vec![]),
        Ty::Enum(n) => Val::Enum(s(n), 0),
        _ => Val::Unit,
    }
}

/// the operations on arrays; None for one that is not modelled
pub fn array_op(n: &str, xs: &mut Vec<Val>, vs: &[Val], default: &Val) -> Option<Val> {
    let same = |a: &Val, b: &Val| a.canon() == b.canon();
    Some(match (n, vs) {
        ("ArrayClear", []) => {
            xs.clear();
            Val::Unit
        }
        ("ArraySize", []) => Val::Int(xs.len() as i32),
        ("ArrayResize", [v]) => {
            let n = index(v)?;
            if n > 1000 {
                return None;
            }
            xs.resize(n, default.clone());
            Val::Unit
        }
        ("ArrayFindFirst", [v]) => xs.iter().find(|x| same(x, v)).cloned().unwrap_or_else(|| default.clone()),
        ("ArrayFindLast", [v]) => xs.iter().rev().find(|x| same(x, v)).cloned().unwrap_or_else(|| default.clone()),
        ("ArrayContains", [v]) => Val::Bool(xs.iter().any(|x| same(x, v))),
        ("ArrayCount", [v]) => Val::Int(xs.iter().filter(|x| same(x, v)).count() as i32),
        ("ArrayPush", [v]) => {
            xs.push(v.clone());
            Val::Unit
        }
        ("ArrayPop", []) => xs.pop().unwrap_or_else(|| default.clone()),
        ("ArrayInsert", [i, v]) => {
            let i = index(i)?;
            if i <= xs.len() {
                xs.insert(i, v.clone());
            }
            Val::Unit
        }
        ("ArrayRemove", [v]) => match xs.iter().position(|x| same(x, v)) {
            Some(i) => {
                xs.remove(i);
                Val::Bool(true)
            }
            None => Val::Bool(false),
        },
        ("ArrayGrow", [v]) => {
            let n = xs.len() + index(v)?;
            if n > 1000 {
                return None;
            }
            xs.resize(n, default.clone());
            Val::Unit
        }
        ("ArrayErase", [i]) => {
            let i = index(i)?;
            if i < xs.len() {
                xs.remove(i);
                Val::Bool(true)
            } else {
                Val::Bool(false)
            }
        }
        ("ArrayLast", []) => xs.last().cloned().unwrap_or_else(|| default.clone()),
        _ => return None,
    })
}

pub fn index(v: &Val) -> Option<usize> {
    match v {
        Val::Int(i) => usize::try_from(*i).ok(),
        Val::U64(i) => usize::try_from(*i).ok(),
        _ => None,
    }
}
