//! Programs for the decompiler: a small assembler, a reference code generator for structured
//! programs, an interpreter of the code and an interpreter of the decompiled tree.
use redscript::ast::{Constant, Expr, Seq, SourceAst};
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Code, Instr, Offset};
use redscript::definition::{Class, Definition, Function, FunctionFlags, Type, Visibility};
use redscript::Ref;
use redscript_decompiler::Decompiler;

use crate::ops::{self, MInstr, Val};
use crate::util::{Chooser, Fail};

// ------------------------------------------------------------------ assembler

#[derive(Clone, Debug)]
pub enum Item {
    /// an instruction whose operands marked (operand, label) are distances to labels
    I(MInstr, Vec<(usize, usize)>),
    L(usize),
}

#[derive(Default, Clone, Debug)]
pub struct Asm {
    pub items: Vec<Item>,
    labels: usize,
}

impl Asm {
    pub fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }
    pub fn place(&mut self, l: usize) {
        self.items.push(Item::L(l));
    }
    pub fn op(&mut self, op: u8, vals: &[i64]) {
        self.items.push(Item::I(MInstr::ints(op, vals), vec![]));
    }
    pub fn jump(&mut self, op: u8, vals: &[i64], labels: &[(usize, usize)]) {
        self.items.push(Item::I(MInstr::ints(op, vals), labels.to_vec()));
    }
    pub fn raw(&mut self, i: MInstr) {
        self.items.push(Item::I(i, vec![]));
    }
    /// (position, instruction) with every distance filled in
    pub fn finish(&self) -> Vec<(usize, MInstr)> {
        let mut at = vec![0usize; self.labels];
        let mut pos = 0;
        for i in &self.items {
            match i {
                Item::I(m, _) => pos += m.vm_size(),
                Item::L(l) => at[*l] = pos,
            }
        }
        let mut out = vec![];
        let mut pos = 0;
        for i in &self.items {
            if let Item::I(m, ls) = i {
                let mut m = m.clone();
                for (k, l) in ls {
                    m.vals[*k] = Val::Int(at[*l] as i64 - pos as i64);
                }
                let size = m.vm_size();
                out.push((pos, m));
                pos += size;
            }
        }
        out
    }
}

pub fn to_code(c: &[(usize, MInstr)]) -> Code<Offset> {
    Code::new(c.iter().map(|(_, m)| ops::build(m)).collect::<Vec<Instr<Offset>>>())
}

pub fn show(c: &[(usize, MInstr)]) -> String {
    c.iter().map(|(p, m)| format!("{p}:{}", m.show())).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------ the pool the programs use

pub const CALLS: u32 = 12;
pub const CONDS: u32 = 12;
pub const FIRST_CALL: u32 = 2;
pub const FIRST_COND: u32 = FIRST_CALL + CALLS;
/// the function under test is added last
pub const SELF: u32 = FIRST_COND + CONDS;

pub fn empty_fun(flags: FunctionFlags) -> Function {
    Function {
        visibility: Visibility::Public,
        flags,
        source: None,
        return_type: None,
        unk1: false,
        base_method: None,
        parameters: vec![],
        locals: vec![],
        operator: None,
        cast: 0,
        code: Code::EMPTY,
        unk2: vec![],
    }
}

/// global native functions s0.. and c0.., and an empty function main
pub fn flow_pool() -> ConstantPool {
    let mut p = ConstantPool::default();
    p.names.add(Ref::from("zero"));
    p.reserve::<Definition>();
    let n = p.names.add(Ref::from("Int32"));
    p.add_definition::<Type>(Definition::type_(n, Type::Prim));
    for (n, c) in [(CALLS, 's'), (CONDS, 'c')] {
        for i in 0..n {
            let n = p.names.add(Ref::from(format!("{c}{i};")));
            let f = empty_fun(FunctionFlags::new().with_is_static(true).with_is_native(true));
            p.add_definition::<Function>(Definition::function(n, PoolIndex::<Class>::UNDEFINED, f));
        }
    }
    let n = p.names.add(Ref::from("main;"));
    p.add_definition::<Function>(Definition::function(
        n,
        PoolIndex::<Class>::UNDEFINED,
        empty_fun(FunctionFlags::new().with_is_static(true).with_has_body(true)),
    ));
    p
}

pub fn decompile(pool: &mut ConstantPool, code: &[(usize, MInstr)]) -> Result<Result<Seq<SourceAst>, String>, Fail> {
    let idx = PoolIndex::<Function>::new(SELF);
    pool.function_mut(idx).unwrap().code = to_code(code);
    let fun = pool.function(idx).unwrap();
    let def = pool.definition(idx).unwrap();
    Ok(Decompiler::decompiled(fun, def, pool).map_err(|e| e.to_string()))
}

// ------------------------------------------------------------------ structured programs

#[derive(Clone, Debug)]
pub enum St {
    Call(u32),
    Break,
    Return,
    If(u32, Vec<St>),
    IfElse(u32, Vec<St>, Vec<St>),
    While(u32, Vec<St>),
    /// subject, cases in order (their value is their number), default
    Switch(u32, Vec<Vec<St>>, Option<Vec<St>>),
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub switches: bool,
    pub loops: bool,
    pub dead: bool,
    pub max_cases: usize,
    pub unmarked: bool,
}

pub struct Gen {
    pub budget: usize,
    pub calls: u32,
    pub conds: u32,
    pub shape: Shape,
}

impl Gen {
    pub fn new(budget: usize, shape: Shape) -> Self {
        Gen { budget, calls: 0, conds: 0, shape }
    }
    fn cond(&mut self) -> u32 {
        self.conds += 1;
        self.conds - 1
    }
    /// any block that fits in the budget
    pub fn block(&mut self, ch: &mut Chooser, breakable: bool) -> Vec<St> {
        let mut out = vec![];
        loop {
            if self.budget == 0 {
                return out;
            }
            if !self.shape.dead && matches!(out.last(), Some(St::Break | St::Return)) {
                return out;
            }
            let mut opts: Vec<u8> = vec![0, 1, 3];
            if breakable {
                opts.push(2);
            }
            if self.budget >= 2 {
                opts.extend([4, 5]);
                if self.shape.loops {
                    opts.push(6);
                }
                if self.shape.switches {
                    opts.push(7);
                }
            }
            let k = *ch.of(&opts);
            if k == 0 {
                return out;
            }
            self.budget -= 1;
            match k {
                1 => {
                    out.push(St::Call(self.calls));
                    self.calls += 1;
                }
                2 => out.push(St::Break),
                3 => out.push(St::Return),
                4 => {
                    let c = self.cond();
                    let b = self.block(ch, breakable);
                    out.push(St::If(c, b));
                }
                5 => {
                    let c = self.cond();
                    let b = self.block(ch, breakable);
                    let e = self.block(ch, breakable);
                    out.push(St::IfElse(c, b, e));
                }
                6 => {
                    let c = self.cond();
                    let b = self.block(ch, true);
                    out.push(St::While(c, b));
                }
                _ => {
                    let c = self.cond();
                    let n = 1 + ch.pick(self.shape.max_cases);
                    let mut cases = vec![];
                    for _ in 0..n {
                        let mut b = self.block(ch, true);
                        // a body that would run into the next case is closed with a break
                        if !b.is_empty() && !matches!(b.last(), Some(St::Break | St::Return)) {
                            b.push(St::Break);
                        }
                        cases.push(b);
                    }
                    // Without a break in any case the code does not tell where the switch ends:
                    // defaults that are empty or break belong to `unmarked` (see c12.rs).
                    let marked = self.shape.unmarked || cases.iter().any(|b| breaks(b));
                    let mut default = if ch.flag() { Some(self.block(ch, marked)) } else { None };
                    if !marked && matches!(&default, Some(d) if d.is_empty()) {
                        default = None;
                    }
                    out.push(St::Switch(c, cases, default));
                }
            }
        }
    }
}

/// has a break of its own
pub fn breaks(b: &[St]) -> bool {
    b.iter().any(|s| match s {
        St::Break => true,
        St::If(_, a) => breaks(a),
        St::IfElse(_, a, b) => breaks(a) || breaks(b),
        _ => false,
    })
}

fn call(a: &mut Asm, f: u32) {
    let l = a.label();
    a.jump(36, &[0, 1, i64::from(f), 0], &[(0, l)]);
    a.op(38, &[]);
    a.place(l);
}

pub fn codegen(body: &[St]) -> Asm {
    codegen_laid(body, false)
}

/// the code a compiler emits for a structured program;
/// a threaded jump over an else branch that would lead to another jump leads where that one does
pub fn codegen_laid(body: &[St], threaded: bool) -> Asm {
    let mut a = Asm::default();
    seq(&mut a, body, None, None, threaded);
    a.op(0, &[]);
    a
}

fn seq(a: &mut Asm, body: &[St], exit: Option<usize>, tail: Option<usize>, threaded: bool) {
    for (i, s) in body.iter().enumerate() {
        let tail = match body.get(i + 1) {
            None => tail,
            Some(St::Break) => exit,
            Some(_) => None,
        };
        stmt(a, s, exit, tail.filter(|_| threaded), threaded);
    }
}

/// a block that is never left at its end
fn ends(body: &[St]) -> bool {
    body.iter().any(|s| match s {
        St::Break | St::Return => true,
        St::IfElse(_, a, b) => ends(a) && ends(b),
        _ => false,
    })
}

fn stmt(a: &mut Asm, s: &St, exit: Option<usize>, tail: Option<usize>, threaded: bool) {
    match s {
        St::Call(i) => call(a, FIRST_CALL + i),
        St::Break => a.jump(31, &[0], &[(0, exit.expect("harness: break"))]),
        St::Return => {
            a.op(39, &[]);
            a.op(0, &[]);
        }
        St::If(c, b) => {
            let e = a.label();
            a.jump(32, &[0], &[(0, e)]);
            call(a, FIRST_COND + c);
            seq(a, b, exit, tail, threaded);
            a.place(e);
        }
        St::IfElse(c, b, f) => {
            let (e, x) = (a.label(), a.label());
            a.jump(32, &[0], &[(0, e)]);
            call(a, FIRST_COND + c);
            // only together with an else branch that reaches the jump as well
            let to = tail.filter(|_| !ends(f)).unwrap_or(x);
            seq(a, b, exit, Some(to), threaded);
            a.jump(31, &[0], &[(0, to)]);
            a.place(e);
            seq(a, f, exit, tail, threaded);
            a.place(x);
        }
        St::While(c, b) => {
            let (top, x) = (a.label(), a.label());
            a.place(top);
            a.jump(32, &[0], &[(0, x)]);
            call(a, FIRST_COND + c);
            seq(a, b, Some(x), None, threaded);
            a.jump(31, &[0], &[(0, top)]);
            a.place(x);
        }
        St::Switch(c, cases, default) => {
            let (first, x) = (a.label(), a.label());
            a.jump(28, &[1, 0], &[(1, first)]);
            call(a, FIRST_COND + c);
            a.place(first);
            let mut next = a.label();
            let mut body = a.label();
            for (i, b) in cases.iter().enumerate() {
                a.place(next);
                next = a.label();
                a.jump(29, &[0, 0], &[(0, next), (1, body)]);
                a.op(6, &[i as i64 + 10]);
                if !b.is_empty() {
                    a.place(body);
                    seq(a, b, Some(x), None, threaded);
                    body = a.label();
                }
            }
            a.place(next);
            // cases left without a body fall into the default or out of the switch
            a.place(body);
            if let Some(d) = default {
                a.op(30, &[]);
                seq(a, d, Some(x), None, threaded);
            }
            a.place(x);
        }
    }
}

// ------------------------------------------------------------------ behaviour

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Call(String),
    /// a decision and its outcome
    Ask(String, i64),
    Return,
    End,
    /// ran out of decisions or steps
    Cut,
    Stuck(String),
}

/// outcomes of the conditions and subjects, in the order they are asked for
pub struct Oracle<'a> {
    pub answers: &'a [u8],
    pub used: usize,
    pub steps: usize,
}

impl Oracle<'_> {
    fn ask(&mut self) -> Option<u8> {
        let a = self.answers.get(self.used).copied();
        self.used += 1;
        a
    }
    fn tick(&mut self) -> bool {
        self.steps += 1;
        self.steps < 400
    }
}

fn fname(pool: &ConstantPool, i: i64) -> String {
    let n = pool.def_name(PoolIndex::<Function>::new(i as u32)).map(|x| x.to_string()).unwrap_or_else(|_| format!("#{i}"));
    n.split(';').next().unwrap_or_default().to_owned()
}

/// runs the code from a position
pub fn run_code(code: &[(usize, MInstr)], start: usize, pool: &ConstantPool, o: &mut Oracle, out: &mut Vec<Ev>) {
    let index = |p: i64| code.iter().position(|(q, _)| *q as i64 == p);
    let end = code.last().map_or(0, |(p, m)| p + m.vm_size());
    let mut pc = start as i64;
    loop {
        if !o.tick() {
            out.push(Ev::Cut);
            return;
        }
        if pc as usize == end {
            out.push(Ev::End);
            return;
        }
        let Some(i) = index(pc) else {
            out.push(Ev::Stuck(format!("no instruction at {pc}")));
            return;
        };
        let (_, m) = &code[i];
        let v = |k: usize| m.vals[k].int();
        let callee = |j: usize| -> Option<(i64, usize)> {
            match code.get(j) {
                Some((_, c)) if c.op == 36 => Some((c.vals[2].int(), j + 2)),
                _ => None,
            }
        };
        let at = |j: usize| code.get(j).map_or(end as i64, |(p, _)| *p as i64);
        match m.op {
            0 | 30 => pc = at(i + 1),
            36 => {
                out.push(Ev::Call(fname(pool, v(2))));
                pc = at(i + 2);
            }
            31 => pc += v(0),
            39 => {
                out.push(Ev::Return);
                return;
            }
            32 => {
                let Some((f, next)) = callee(i + 1) else {
                    out.push(Ev::Stuck("condition".into()));
                    return;
                };
                let Some(a) = o.ask() else {
                    out.push(Ev::Cut);
                    return;
                };
                let yes = a & 1 == 1;
                out.push(Ev::Ask(fname(pool, f), i64::from(yes)));
                pc = if yes { at(next) } else { pc + v(0) };
            }
            28 => {
                let Some((f, _)) = callee(i + 1) else {
                    out.push(Ev::Stuck("subject".into()));
                    return;
                };
                let Some(a) = o.ask() else {
                    out.push(Ev::Cut);
                    return;
                };
                out.push(Ev::Ask(fname(pool, f), 10 + i64::from(a)));
                let mut l = pc + v(1);
                // the labels are tried in turn
                loop {
                    if !o.tick() {
                        out.push(Ev::Cut);
                        return;
                    }
                    let Some(j) = index(l) else {
                        pc = l;
                        break;
                    };
                    let lab = &code[j].1;
                    if lab.op != 29 {
                        pc = l;
                        break;
                    }
                    let matched = code.get(j + 1).map(|(_, k)| k.vals.first().map(Val::int)) == Some(Some(10 + i64::from(a)));
                    if matched {
                        pc = l + lab.vals[1].int();
                        break;
                    }
                    l += lab.vals[0].int();
                }
            }
            // reached from above: falls through into the body of the label
            29 => pc += v(1),
            other => {
                out.push(Ev::Stuck(format!("opcode {other}")));
                return;
            }
        }
    }
}

enum Flow {
    Next,
    Break,
    /// the trace is complete
    Done,
}

pub struct Tree<'a, 'b> {
    pub code: &'a [(usize, MInstr)],
    pub pool: &'a ConstantPool,
    pub o: Oracle<'b>,
    pub out: Vec<Ev>,
}

impl Tree<'_, '_> {
    pub fn run(mut self, seq: &Seq<SourceAst>) -> Vec<Ev> {
        match self.seq(&seq.exprs) {
            Flow::Next => self.out.push(Ev::End),
            Flow::Break => self.out.push(Ev::Stuck("break outside".into())),
            Flow::Done => {}
        }
        self.out
    }

    fn seq(&mut self, s: &[Expr<SourceAst>]) -> Flow {
        for e in s {
            match self.stmt(e) {
                Flow::Next => {}
                f => return f,
            }
        }
        Flow::Next
    }

    fn stuck(&mut self, s: &str) -> Flow {
        self.out.push(Ev::Stuck(s.to_owned()));
        Flow::Done
    }

    fn ask(&mut self, e: &Expr<SourceAst>) -> Option<u8> {
        let Expr::Call(f, _, args, _) = e else {
            self.stuck("condition");
            return None;
        };
        if !args.is_empty() {
            self.stuck("arguments");
            return None;
        }
        let name = f.as_ref().split(';').next().unwrap_or_default().to_owned();
        match self.o.ask() {
            None => {
                self.out.push(Ev::Cut);
                None
            }
            Some(a) => {
                self.out.push(Ev::Ask(name, 0));
                Some(a)
            }
        }
    }

    fn answer(&mut self, v: i64) {
        if let Some(Ev::Ask(_, x)) = self.out.last_mut() {
            *x = v;
        }
    }

    fn stmt(&mut self, e: &Expr<SourceAst>) -> Flow {
        if !self.o.tick() {
            self.out.push(Ev::Cut);
            return Flow::Done;
        }
        match e {
            Expr::Call(f, _, args, _) => {
                if !args.is_empty() {
                    return self.stuck("arguments");
                }
                self.out.push(Ev::Call(f.as_ref().split(';').next().unwrap_or_default().to_owned()));
                Flow::Next
            }
            Expr::Seq(s) => self.seq(&s.exprs),
            Expr::Return(None, _) => {
                self.out.push(Ev::Return);
                Flow::Done
            }
            Expr::Break(_) => Flow::Break,
            Expr::Goto(t, _) => {
                run_code(self.code, t.position.value as usize, self.pool, &mut self.o, &mut self.out);
                Flow::Done
            }
            Expr::If(c, a, b, _) => {
                let Some(x) = self.ask(c) else { return Flow::Done };
                self.answer(i64::from(x & 1));
                if x & 1 == 1 {
                    self.seq(&a.exprs)
                } else if let Some(b) = b {
                    self.seq(&b.exprs)
                } else {
                    Flow::Next
                }
            }
            Expr::While(c, b, _) => loop {
                if !self.o.tick() {
                    self.out.push(Ev::Cut);
                    return Flow::Done;
                }
                let Some(x) = self.ask(c) else { return Flow::Done };
                self.answer(i64::from(x & 1));
                if x & 1 == 0 {
                    return Flow::Next;
                }
                match self.seq(&b.exprs) {
                    Flow::Next => {}
                    Flow::Break => return Flow::Next,
                    Flow::Done => return Flow::Done,
                }
            },
            Expr::Switch(c, cases, default, _) => {
                let Some(x) = self.ask(c) else { return Flow::Done };
                let v = 10 + i64::from(x);
                self.answer(v);
                let hit = cases.iter().position(|k| matches!(&k.matcher, Expr::Constant(Constant::I32(i), _) if i64::from(*i) == v));
                let from = hit.unwrap_or(cases.len());
                for k in &cases[from..] {
                    match self.seq(&k.body.exprs) {
                        Flow::Next => {}
                        Flow::Break => return Flow::Next,
                        Flow::Done => return Flow::Done,
                    }
                }
                if let Some(d) = default {
                    match self.seq(&d.exprs) {
                        Flow::Next | Flow::Break => Flow::Next,
                        Flow::Done => Flow::Done,
                    }
                } else {
                    Flow::Next
                }
            }
            other => self.stuck(&format!("{other:?}")),
        }
    }
}

/// compares the two behaviours under every sequence of at most `depth` answers
pub fn same_behaviour(code: &[(usize, MInstr)], tree: &Seq<SourceAst>, pool: &ConstantPool, depth: usize, outcomes: u8) -> Result<u64, String> {
    let mut answers: Vec<u8> = vec![];
    let mut n = 0;
    loop {
        n += 1;
        let mut want = vec![];
        let mut o = Oracle { answers: &answers, used: 0, steps: 0 };
        run_code(code, 0, pool, &mut o, &mut want);
        let used = o.used;
        let got = Tree { code, pool, o: Oracle { answers: &answers, used: 0, steps: 0 }, out: vec![] }.run(tree);
        // what happened before a cut must agree; a step cut may fall at different places
        let cut = want.last() == Some(&Ev::Cut) && used <= answers.len() || got.last() == Some(&Ev::Cut) && want.last() == Some(&Ev::Cut);
        let same = if cut {
            let (w, g) = (&want[..want.len() - 1], &got[..got.len() - 1]);
            got.last() == Some(&Ev::Cut) && w.iter().zip(g).all(|(a, b)| a == b)
        } else {
            want == got
        };
        if !same {
            return Err(format!("with answers {answers:?} the code does {want:?}, the decompiled source does {got:?}"));
        }
        // next sequence: deepen when more answers were asked for than given
        if used > answers.len() && answers.len() < depth {
            answers.push(0);
            continue;
        }
        loop {
            match answers.last_mut() {
                None => return Ok(n),
                Some(a) if *a + 1 < outcomes => {
                    *a += 1;
                    break;
                }
                Some(_) => {
                    answers.pop();
                }
            }
        }
    }
}
