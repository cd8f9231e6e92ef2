//! C22: compiled code does what the source says.
use crate::base;
use crate::lang::*;
use crate::util::{fail, Chooser, Ctx, Cx, Fail};
use crate::vm::Vm;

pub fn key(text: &str) -> String {
    text.split_whitespace().collect::<Vec<_>>().join(" ")
}

pub fn show(log: &[String]) -> String {
    log.join(" ")
}

/// compiles a program and compares it with its meaning on every tape of answers
pub fn check(p: &Prog, entry: &'static str, answers: usize, cx: &mut Cx) -> Result<(), Fail> {
    let text = prog(p);
    cx.case(|| text.clone());
    let mut pool = base::pool();
    let out = match base::compile(&mut pool, &[&text]) {
        Ok(o) => o,
        Err(e) => return fail(key(&text), format!("{text}\nis not compiled: {e}")),
    };
    if let Some(d) = base::fatal(out.diagnostics()) {
        return fail(key(&text), format!("{text}\nis rejected: {d}"));
    }
    compare(p, &text, &pool, entry, answers, cx)
}

pub fn compare(
    p: &Prog,
    text: &str,
    pool: &redscript::bundle::ConstantPool,
    entry: &'static str,
    answers: usize,
    cx: &mut Cx,
) -> Result<(), Fail> {
    if let Err(Stop::Bad(m)) = Vm::verify(pool) {
        return fail(key(text), format!("{text}\nis compiled to code that is out of shape: {m}"));
    }
    cx.state();
    let mut world = World::new(answers);
    let Some(main) = Vm::new(pool, &mut World::new(0)).find(None, entry) else {
        return fail(key(text), format!("{text}\nis compiled, but there is no {entry}"));
    };
    loop {
        world.reset();
        let want = {
            let mut i = Interp::new(p, &mut world);
            end(i.run(entry))
        };
        let log = std::mem::take(&mut world.log);
        let (tape, pos) = (world.tape.clone(), world.pos);
        world.reset();
        let got = {
            let mut vm = Vm::new(pool, &mut world);
            end(vm.call(main, None, vec![]))
        };
        cx.step();
        if let Err(m) = &want {
            panic!("harness: {text}\n{m}");
        }
        if got != want || world.log != log {
            return fail(
                key(text),
                format!(
                    "{text}\nwith answers {:?}\nmeans {want:?} after {}\nbut does {got:?} after {}",
                    tape.iter().map(|t| t.0).collect::<Vec<_>>(),
                    show(&log),
                    show(&world.log)
                ),
            );
        }
        world.pos = pos;
        world.tape = tape;
        cx.trace();
        if !world.advance() {
            break;
        }
    }
    cx.sample(|| text.to_owned());
    Ok(())
}

/// how a run ends: with a value, or when the answers run out
fn end(r: Result<Val, Stop>) -> Result<String, String> {
    match r {
        Ok(v) => Ok(format!("{:?}", v.canon())),
        Err(Stop::Cut) => Ok("cut".into()),
        Err(Stop::Bad(m)) => Err(m),
    }
}

pub fn main_fn(body: Vec<St>) -> Func {
    Func { key: "Main", quals: "public ", body, ..Func::default() }
}

pub struct Flow<'c> {
    pub ch: &'c mut Chooser,
    pub left: usize,
    pub k: i32,
    pub arrays: bool,
}

impl Flow<'_> {
    fn id(&mut self) -> i32 {
        self.k += 1;
        self.k
    }

    /// a block of statements; `exit`: what break would leave
    pub fn block(&mut self, depth: usize, brk: bool) -> Vec<St> {
        let mut out = vec![];
        while self.left > 0 && !self.ch.flag() {
            self.left -= 1;
            let (st, ends) = self.stmt(depth, brk);
            out.push(st);
            if ends {
                break;
            }
        }
        out
    }

    fn cond(&mut self) -> E {
        E::Call("C", vec![lit(self.id())])
    }

    fn stmt(&mut self, depth: usize, brk: bool) -> (St, bool) {
        let mut kinds = vec!['t', 'r'];
        if brk {
            kinds.push('b');
        }
        if depth > 0 {
            kinds.extend(['i', 'e', 'l', 'w', 's']);
            if self.arrays {
                kinds.push('f');
            }
        }
        match *self.ch.of(&kinds) {
            't' => (St::Ex(E::Call("T", vec![lit(self.id())])), false),
            'r' => (St::Return(Some(lit(self.id() + 100))), true),
            'b' => (St::Break, true),
            'i' => {
                let c = self.cond();
                (St::If(c, self.block(depth - 1, brk), None), false)
            }
            'e' => {
                let c = self.cond();
                let t = self.block(depth - 1, brk);
                let e = self.block(depth - 1, brk);
                (St::If(c, t, Some(e)), false)
            }
            'l' => {
                // else if
                let c = self.cond();
                let t = self.block(depth - 1, brk);
                let d = self.cond();
                let u = self.block(depth - 1, brk);
                let e = self.ch.flag().then(|| self.block(depth - 1, brk));
                (St::If(c, t, Some(vec![St::If(d, u, e)])), false)
            }
            'w' => {
                let c = self.cond();
                (St::While(c, self.block(depth - 1, true)), false)
            }
            'f' => {
                let n = self.ch.pick(3);
                let vs = (0..n).map(|_| lit(self.id() + 50)).collect();
                let arr = E::Call("VA", vec![if n == 0 { E::Var("none") } else { E::ArrLit(vs) }]);
                let mut body = vec![St::Ex(E::Call("T", vec![E::Var("it")]))];
                body.extend(self.block(depth - 1, true));
                (St::For("it", arr, body), false)
            }
            _ => {
                let m = E::Call("N", vec![lit(self.id())]);
                let n = self.ch.pick(3);
                let mut cases = vec![];
                for i in 0..n {
                    let mut body = self.block(depth - 1, true);
                    let done = matches!(body.last(), None | Some(St::Break | St::Return(_)));
                    if i + 1 < n && !done {
                        body.push(St::Break);
                    }
                    cases.push((lit(i as i32 + 1), body));
                }
                let d = if n == 0 || self.ch.flag() { Some(self.block(depth - 1, true)) } else { None };
                (St::Switch(m, cases, d), false)
            }
        }
    }
}

fn flow(ctx: &Ctx, name: &str, size: usize, depth: usize, answers: usize, arrays: bool) {
    ctx.explore(name, |ch, cx| {
        let mut g = Flow { ch, left: size, k: 0, arrays };
        let mut body = vec![];
        if arrays {
            body.push(St::Let("none", Some(Ty::Arr(Box::new(Ty::I32))), None, Val::Arr(vec![])));
        }
        body.extend(g.block(depth, false));
        if g.left > 0 {
            // smaller bodies are covered by smaller sizes only once
            cx.state();
        }
        body.push(St::Ex(E::Call("T", vec![lit(99)])));
        body.push(St::Return(Some(lit(7))));
        let p = Prog {
            classes: vec![],
            funcs: vec![Func { key: "Main", quals: "public ", ret: Some(Ty::I32), body, ..Func::default() }],
        };
        check(&p, "Main", answers, cx)
    });
}

// ---------------------------------------------------------------- expressions

pub struct Exprs<'c> {
    pub ch: &'c mut Chooser,
    pub k: i32,
}

impl Exprs<'_> {
    fn id(&mut self) -> i32 {
        self.k += 1;
        self.k
    }

    /// an expression of type Int32
    pub fn int(&mut self, depth: usize) -> E {
        let k = self.id();
        if depth == 0 {
            return match self.ch.pick(3) {
                0 => E::Call("V", vec![lit(k)]),
                1 => E::Var("x"),
                _ => E::Index(b(E::Var("a")), b(lit(1))),
            };
        }
        match self.ch.pick(12) {
            0 => E::Call("V", vec![lit(k)]),
            1 => E::Bin("+", b(self.int(depth - 1)), b(self.int(depth - 1))),
            2 => E::Bin("-", b(self.int(depth - 1)), b(self.int(depth - 1))),
            3 => E::Cond(b(self.bool(depth - 1)), b(self.int(depth - 1)), b(self.int(depth - 1))),
            4 => E::Call("F", vec![self.int(depth - 1), self.int(depth - 1)]),
            5 => E::Call("G", vec![E::Var("x"), self.int(depth - 1)]),
            6 => E::Un("-", b(self.int(depth - 1))),
            7 => E::Index(b(E::Var("a")), b(E::Bin("&", b(self.int(depth - 1)), b(lit(1))))),
            8 => E::OpAssign("+", b(E::Var("x")), b(self.int(depth - 1))),
            9 => E::OpAssign("*", b(E::Index(b(E::Var("a")), b(lit(0)))), b(self.int(depth - 1))),
            10 => E::Intr("ArrayPop", None, vec![E::Var("a")], Val::Int(0)),
            _ => E::Method(b(E::Var("o")), "M", vec![self.int(depth - 1)]),
        }
    }

    pub fn bool(&mut self, depth: usize) -> E {
        let k = self.id();
        if depth == 0 {
            return match self.ch.pick(2) {
                0 => E::Call("C", vec![lit(k)]),
                _ => E::Bin("<", b(E::Var("x")), b(lit(3))),
            };
        }
        match self.ch.pick(7) {
            0 => E::Call("C", vec![lit(k)]),
            1 => E::Bin("&&", b(self.bool(depth - 1)), b(self.bool(depth - 1))),
            2 => E::Bin("||", b(self.bool(depth - 1)), b(self.bool(depth - 1))),
            3 => E::Un("!", b(self.bool(depth - 1))),
            4 => E::Bin("<", b(self.int(depth - 1)), b(self.int(depth - 1))),
            5 => E::Cond(b(self.bool(depth - 1)), b(self.bool(depth - 1)), b(self.bool(depth - 1))),
            _ => E::Intr("Equals", None, vec![self.int(depth - 1), self.int(depth - 1)], Val::Unit),
        }
    }
}

fn helpers() -> Vec<Func> {
    vec![
        Func {
            key: "F",
            quals: "public ",
            params: vec![par("p", Ty::I32), par("q", Ty::I32)],
            ret: Some(Ty::I32),
            body: vec![
                St::Ex(E::Call("T", vec![E::Bin("*", b(E::Var("p")), b(E::Var("q")))])),
                St::Return(Some(E::Bin("-", b(E::Var("p")), b(E::Var("q"))))),
            ],
            ..Func::default()
        },
        Func {
            key: "G",
            quals: "public ",
            params: vec![Param { out: true, ..par("p", Ty::I32) }, par("q", Ty::I32)],
            ret: Some(Ty::I32),
            body: vec![
                St::Ex(E::Assign(b(E::Var("p")), b(E::Bin("+", b(E::Var("q")), b(lit(10)))))),
                St::Return(Some(E::Bin("+", b(E::Var("p")), b(E::Var("q"))))),
            ],
            ..Func::default()
        },
    ]
}

fn object() -> Class {
    Class {
        name: "Obj",
        fields: vec![("n", Ty::I32, Val::Int(0))],
        methods: vec![Func {
            key: "M",
            quals: "public ",
            params: vec![par("p", Ty::I32)],
            ret: Some(Ty::I32),
            body: vec![
                St::Ex(E::OpAssign("+", b(E::Field(b(E::This), "n")), b(E::Var("p")))),
                St::Return(Some(E::Field(b(E::This), "n"))),
            ],
            ..Func::default()
        }],
        ..Class::default()
    }
}

fn exprs(ctx: &Ctx, name: &str, depth: usize, bools: bool, all: bool) {
    ctx.explore(name, |ch, cx| {
        let mut g = Exprs { ch, k: 0 };
        let mut body = vec![
            St::Let("x", None, Some(lit(2)), Val::Unit),
            St::Let("a", Some(Ty::Arr(Box::new(Ty::I32))), Some(E::ArrLit(vec![lit(4), lit(5)])), Val::Unit),
            St::Let("o", None, Some(E::New("Obj")), Val::Unit),
        ];
        if bools {
            let e = g.bool(depth);
            body.push(match g.ch.pick(3) {
                0 => St::Ex(E::Call("TB", vec![e])),
                1 => St::If(e, vec![St::Ex(E::Call("T", vec![lit(90)]))], Some(vec![St::Ex(E::Call("T", vec![lit(91)]))])),
                _ => St::While(e, vec![St::Ex(E::Call("T", vec![lit(92)])), St::If(E::Call("C", vec![lit(93)]), vec![St::Break], None)]),
            });
        } else {
            let e = g.int(depth);
            body.push(match if all { g.ch.pick(3) } else { 2 } {
                0 => St::Ex(E::Call("T", vec![e])),
                1 => St::Ex(E::Assign(b(E::Var("x")), b(e))),
                _ => St::Ex(E::Assign(b(E::Index(b(E::Var("a")), b(E::Call("V", vec![lit(1)])))), b(e))),
            });
        }
        body.push(St::Ex(E::Call("T", vec![E::Var("x")])));
        body.push(St::Ex(E::Call("TA", vec![E::Var("a")])));
        body.push(St::Ex(E::Call("T", vec![E::Field(b(E::Var("o")), "n")])));
        let mut funcs = helpers();
        funcs.push(main_fn(body));
        check(&Prog { classes: vec![object()], funcs }, "Main", 4, cx)
    });
}


// ---------------------------------------------------------------- scopes

/// declarations, assignments and uses of a few names in nested blocks and loops
struct Scopes<'c> {
    ch: &'c mut Chooser,
    left: usize,
    k: i32,
    /// names in scope, with their types
    vars: Vec<(&'static str, bool)>,
}

impl Scopes<'_> {
    fn id(&mut self) -> i32 {
        self.k += 1;
        self.k
    }

    fn block(&mut self, depth: usize) -> Vec<St> {
        let mark = self.vars.len();
        let mut out = vec![];
        while self.left > 0 && !self.ch.flag() {
            self.left -= 1;
            self.stmt(depth, &mut out);
        }
        // everything that is visible is shown at the end
        let mut seen = vec![];
        for (n, int) in self.vars.iter().rev() {
            if !seen.contains(n) {
                seen.push(n);
                out.push(St::Ex(E::Call(if *int { "T" } else { "TS" }, vec![E::Var(n)])));
            }
        }
        self.vars.truncate(mark);
        out
    }

    fn stmt(&mut self, depth: usize, out: &mut Vec<St>) {
        let k = self.id();
        let mut kinds = vec!['d', 'u', 'q'];
        if !self.vars.is_empty() {
            kinds.push('a');
        }
        if depth > 0 {
            kinds.extend(['i', 'w', 'f', 's']);
        }
        match *self.ch.of(&kinds) {
            // declared with a value, which may use what is visible before
            'd' => {
                let n = *self.ch.of(&["x", "y"]);
                let of = self.vars.iter().rev().find(|v| v.0 == n).filter(|v| v.1).map(|v| v.0);
                let init = match of {
                    Some(v) if self.ch.flag() => E::Bin("+", b(E::Var(v)), b(lit(k * 10))),
                    _ => lit(k * 10),
                };
                out.push(St::Let(n, None, Some(init), Val::Unit));
                self.vars.push((n, true));
            }
            'u' => {
                let n = *self.ch.of(&["x", "y"]);
                out.push(St::Let(n, Some(Ty::I32), None, Val::Int(0)));
                self.vars.push((n, true));
            }
            // the same name with another type
            'q' => {
                let n = *self.ch.of(&["x", "y"]);
                out.push(St::Let(n, None, Some(string(&format!("s{k}"))), Val::Unit));
                self.vars.push((n, false));
            }
            'a' => {
                let (n, _) = *self.ch.of(&self.vars.clone());
                // the innermost of the name is meant
                let int = self.vars.iter().rev().find(|v| v.0 == n).unwrap().1;
                out.push(St::Ex(if int {
                    E::OpAssign("+", b(E::Var(n)), b(lit(k)))
                } else {
                    E::Assign(b(E::Var(n)), b(E::Bin("+", b(E::Var(n)), b(string("z")))))
                }));
            }
            'i' => {
                let c = E::Call("C", vec![lit(k)]);
                let t = self.block(depth - 1);
                let e = self.ch.flag().then(|| self.block(depth - 1));
                out.push(St::If(c, t, e));
            }
            'w' => {
                let c = E::Call("C", vec![lit(k)]);
                out.push(St::While(c, self.block(depth - 1)));
            }
            'f' => {
                let n = *self.ch.of(&["x", "z"]);
                let a = E::ArrLit(vec![lit(k + 500), lit(k + 600)]);
                self.vars.push((n, true));
                let body = self.block(depth - 1);
                self.vars.pop();
                out.push(St::For(n, a, body));
            }
            _ => {
                let m = E::Call("N", vec![lit(k)]);
                let mut one = self.block(depth - 1);
                one.push(St::Break);
                let two = self.block(depth - 1);
                out.push(St::Switch(m, vec![(lit(1), one)], Some(two)));
            }
        }
    }
}

fn scopes(ctx: &Ctx, size: usize, answers: usize) {
    ctx.explore("scopes", |ch, cx| {
        let param = ch.flag();
        let mut g = Scopes { ch, left: size, k: 0, vars: vec![] };
        if param {
            g.vars.push(("x", true));
        }
        let body = g.block(2);
        let inner = Func {
            key: "Body",
            quals: "public ",
            params: if param { vec![par("x", Ty::I32)] } else { vec![] },
            body,
            ..Func::default()
        };
        let call = E::Call("Body", if param { vec![lit(3)] } else { vec![] });
        // twice: locals of one call are nothing to the next
        let funcs = vec![inner, main_fn(vec![St::Ex(call.clone()), St::Ex(call)])];
        check(&Prog { classes: vec![], funcs }, "Main", answers, cx)
    });
}

// ---------------------------------------------------------------- classes

fn method(key: &'static str, quals: &'static str, params: Vec<Param>, body: Vec<St>) -> Func {
    Func { key, quals, params, ret: Some(Ty::I32), body, ..Func::default() }
}

fn ret(e: E) -> Vec<St> {
    vec![St::Return(Some(e))]
}

/// three classes on a line, methods that are overridden, final, static or neither, and calls
/// through receivers of every static type
fn classes(ctx: &Ctx) {
    let names = ["A", "B", "D"];
    ctx.explore("classes", |ch, cx| {
        let mut classes = vec![];
        let virt = ch.pick(4); // in which subclasses M is defined again
        let sup = ch.flag(); // whether those call the base's
        let fin = ch.flag();
        for (i, n) in names.iter().enumerate() {
            let mut c = Class {
                name: n,
                base: (i > 0).then(|| names[i - 1]),
                fields: vec![(["fa", "fb", "fd"][i], Ty::I32, Val::Int(0))],
                ..Class::default()
            };
            let own = i as i32 * 100;
            if i == 0 || virt & 1 << (i - 1) != 0 {
                let mine = E::Bin("+", b(E::Var("p")), b(lit(own)));
                let e = if i > 0 && sup { E::Bin("*", b(lit(2)), b(E::Super("M", vec![mine]))) } else { mine };
                c.methods.push(method("M", "public ", vec![par("p", Ty::I32)], ret(e)));
            }
            if i == 0 {
                // calls what a subclass may define again
                let inner = E::Bin("+", b(E::Method(b(E::This), "M", vec![E::Var("p")])), b(E::Field(b(E::This), "fa")));
                c.methods.push(method("Outer", if fin { "public final " } else { "public " }, vec![par("p", Ty::I32)], ret(inner)));
                c.methods.push(method("St", "public static ", vec![par("p", Ty::I32)], ret(E::Bin("-", b(lit(5)), b(E::Var("p"))))));
                c.methods.push(Func {
                    key: "Set",
                    quals: "public final ",
                    params: vec![par("p", Ty::I32)],
                    body: vec![St::Ex(E::Assign(b(E::Field(b(E::This), "fa")), b(E::Var("p"))))],
                    ..Func::default()
                });
            }
            if i == 1 {
                // an overload with another parameter
                c.methods.push(method("M#2", "public final ", vec![par("p", Ty::I32), par("q", Ty::I32)], ret(E::Bin("-", b(E::Var("p")), b(E::Var("q"))))));
            }
            classes.push(c);
        }
        let real = *ch.of(&[0usize, 1, 2]);
        let stat = ch.pick(real + 1);
        let how = ch.pick(5);
        let mut body = vec![];
        let obj: E = match how {
            // a reference, a weak one, null, a cast, a parameter of a function
            0 => {
                body.push(St::Let("o", Some(Ty::Ref(names[stat])), Some(E::New(names[real])), Val::Unit));
                E::Var("o")
            }
            1 => {
                body.push(St::Let("s", None, Some(E::New(names[real])), Val::Unit));
                body.push(St::Let("o", Some(Ty::WRef(names[stat])), Some(E::Var("s")), Val::Unit));
                E::Var("o")
            }
            2 => {
                body.push(St::Let("o", Some(Ty::Ref(names[stat])), None, Val::Null));
                E::Var("o")
            }
            3 => {
                body.push(St::Let("s", Some(Ty::Ref("A")), Some(E::New(names[real])), Val::Unit));
                let to = *ch.of(&names);
                if names[..=stat].contains(&to) || stat == 0 {
                    body.push(St::Let("o", None, Some(E::Cast(b(E::Var("s")), names[stat])), Val::Unit));
                    E::Var("o")
                } else {
                    E::Cast(b(E::Var("s")), names[stat])
                }
            }
            _ => {
                body.push(St::Let("o", Some(Ty::Ref(names[stat])), Some(E::New(names[real])), Val::Unit));
                body.push(St::Let("w", Some(Ty::WRef(names[0])), Some(E::Var("o")), Val::Unit));
                E::Cast(b(E::Var("w")), names[stat])
            }
        };
        let v = |k: i32| E::Call("V", vec![lit(k)]);
        let t = |e: E| St::Ex(E::Call("T", vec![e]));
        for _ in 0..2 {
            match ch.pick(7) {
                0 => body.push(t(E::Method(b(obj.clone()), "M", vec![v(1)]))),
                1 => body.push(t(E::Method(b(obj.clone()), "Outer", vec![v(2)]))),
                2 => body.push(t(E::Static("A", "St", vec![v(3)]))),
                3 => body.push(St::Ex(E::Method(b(obj.clone()), "Set", vec![v(4)]))),
                4 => {
                    body.push(St::Ex(E::Assign(b(E::Field(b(obj.clone()), "fa")), b(v(5)))));
                    body.push(t(E::Field(b(obj.clone()), "fa")));
                }
                5 if stat >= 1 => body.push(t(E::Method(b(obj.clone()), "M#2", vec![v(6), v(7)]))),
                _ => body.push(St::Ex(E::Call("TB", vec![E::Intr("IsDefined", None, vec![obj.clone()], Val::Unit)]))),
            }
        }
        if how == 2 {
            // what a method of a null object yields is not shown
            for s in &mut body {
                if let St::Ex(E::Call("T", a)) = s {
                    if matches!(a[0], E::Method(..)) {
                        *s = St::Ex(a[0].clone());
                    }
                }
            }
        }
        check(&Prog { classes, funcs: vec![main_fn(body)] }, "Main", 2, cx)
    });
}

// ---------------------------------------------------------------- arrays and structures

fn arrays(ctx: &Ctx, len: usize) {
    ctx.explore("arrays", |ch, cx| {
        let arr = Ty::Arr(Box::new(Ty::I32));
        let hold = Class { name: "Hold", fields: vec![("xs", arr.clone(), Val::Arr(vec![]))], ..Class::default() };
        let fill = Func {
            key: "Fill",
            quals: "public ",
            params: vec![Param { out: true, ..par("xs", arr.clone()) }, par("copy", arr.clone())],
            body: vec![
                St::Ex(E::Intr("ArrayPush", None, vec![E::Var("xs"), lit(70)], Val::Unit)),
                St::Ex(E::Intr("ArrayPush", None, vec![E::Var("copy"), lit(71)], Val::Unit)),
                St::Ex(E::Call("TA", vec![E::Var("copy")])),
            ],
            ..Func::default()
        };
        let mut body = vec![
            St::Let("h", None, Some(E::New("Hold")), Val::Unit),
            St::Let("a", None, Some(E::ArrLit(vec![lit(1), lit(2), lit(1)])), Val::Unit),
            St::Let("c", Some(arr.clone()), None, Val::Arr(vec![])),
        ];
        let places = [E::Var("a"), E::Field(b(E::Var("h")), "xs")];
        for i in 0..len {
            let v = E::Call("V", vec![lit(*ch.of(&[1, 7 + i as i32]))]);
            let p = ch.of(&places).clone();
            let int = |n: &'static str, args: Vec<E>| {
                let mut all = vec![p.clone()];
                all.extend(args);
                E::Intr(n, None, all, Val::Int(0))
            };
            body.push(match ch.pick(17) {
                0 => St::Ex(int("ArrayPush", vec![v])),
                1 => St::Ex(E::Call("T", vec![int("ArrayPop", vec![])])),
                2 => St::Ex(int("ArrayInsert", vec![lit(0), v])),
                3 => St::Ex(E::Call("TB", vec![int("ArrayRemove", vec![v])])),
                4 => St::Ex(E::Call("TB", vec![int("ArrayErase", vec![v])])),
                5 => St::Ex(int("ArrayClear", vec![])),
                6 => St::Ex(int("ArrayResize", vec![lit(2)])),
                7 => St::Ex(int("ArrayGrow", vec![lit(1)])),
                8 => St::Ex(E::Call("TB", vec![int("ArrayContains", vec![v])])),
                9 => St::Ex(E::Call("T", vec![int("ArrayCount", vec![v])])),
                10 => St::Ex(E::Call("T", vec![int("ArrayLast", vec![])])),
                11 => St::Ex(E::Call("T", vec![int("ArrayFindFirst", vec![v])])),
                12 => St::Ex(E::Call("T", vec![int("ArrayFindLast", vec![v])])),
                13 => St::Ex(E::Assign(b(E::Index(b(p.clone()), b(E::Bin("-", b(int("ArraySize", vec![])), b(lit(1)))))), b(v))),
                // arrays are values
                14 => St::Ex(E::Assign(b(E::Var("c")), b(p.clone()))),
                15 => St::Ex(E::Assign(b(p.clone()), b(if ch.flag() { E::Var("c") } else { E::ArrLit(vec![v]) }))),
                _ => St::Ex(E::Call("Fill", vec![p.clone(), E::Var("a")])),
            });
        }
        for p in [E::Var("a"), E::Field(b(E::Var("h")), "xs"), E::Var("c")] {
            body.push(St::Ex(E::Call("TA", vec![p])));
        }
        // indexing before the start does not happen in a program that means something
        let p = Prog { classes: vec![hold], funcs: vec![fill, main_fn(body)] };
        check(&p, "Main", 0, cx)
    });
}

/// loops over arrays that their bodies change: a loop goes over what the array was at its start
fn changes(ctx: &Ctx, len: usize) {
    ctx.explore("changes in loops", |ch, cx| {
        let arr = Ty::Arr(Box::new(Ty::I32));
        let hold = Class { name: "Hold", fields: vec![("xs", arr.clone(), Val::Arr(vec![]))], ..Class::default() };
        let places = [E::Var("a"), E::Field(b(E::Var("h")), "xs"), E::Var("p")];
        let at = ch.pick(4);
        let over = match at {
            3 => E::Call("VA", vec![E::Var("a")]),
            i => places[i].clone(),
        };
        let mut body = vec![St::Ex(E::Call("T", vec![E::Var("x")]))];
        let show = |e: E| St::Ex(E::Call("TA", vec![e]));
        for i in 0..len {
            let int = |n: &'static str, args: Vec<E>| E::Intr(n, None, args, Val::Int(0));
            let p = places[ch.pick(3)].clone();
            let k = lit(50 + i as i32);
            body.push(match ch.pick(9) {
                0 => St::Ex(int("ArrayPush", vec![p, k])),
                1 => St::Ex(int("ArrayClear", vec![p])),
                2 => St::Ex(int("ArrayInsert", vec![p, lit(0), k])),
                3 => St::Ex(E::Assign(b(p), b(E::ArrLit(vec![k, lit(4)])))),
                4 => St::If(
                    E::Bin(">", b(int("ArraySize", vec![p.clone()])), b(lit(1))),
                    vec![St::Ex(E::Assign(b(E::Index(b(p), b(lit(1)))), b(k)))],
                    None,
                ),
                5 => St::Ex(E::Assign(b(E::Var("x")), b(k))),
                6 => St::For("y", p, vec![St::Ex(E::Call("T", vec![E::Bin("+", b(E::Var("y")), b(E::Var("x")))]))]),
                7 => St::If(E::Call("C", vec![lit(i as i32)]), vec![St::Break], None),
                _ => St::Ex(E::Call("T", vec![int("ArraySize", vec![p])])),
            });
        }
        body.push(St::Ex(E::Call("T", vec![E::Var("x")])));
        let go = Func {
            key: "Go",
            quals: "public ",
            params: vec![Param { out: ch.flag(), ..par("p", arr.clone()) }],
            body: vec![
                St::Let("h", None, Some(E::New("Hold")), Val::Unit),
                St::Let("a", None, Some(E::ArrLit(vec![lit(1), lit(2), lit(3)])), Val::Unit),
                St::Ex(E::Assign(b(E::Field(b(E::Var("h")), "xs")), b(E::ArrLit(vec![lit(5), lit(6)])))),
                St::For("x", over, body),
                show(E::Var("a")),
                show(E::Field(b(E::Var("h")), "xs")),
                show(E::Var("p")),
            ],
            ..Func::default()
        };
        let main = main_fn(vec![
            St::Let("m", None, Some(E::ArrLit(vec![lit(7), lit(8)])), Val::Unit),
            St::Ex(E::Call("Go", vec![E::Var("m")])),
            show(E::Var("m")),
        ]);
        check(&Prog { classes: vec![hold], funcs: vec![go, main] }, "Main", 3, cx)
    });
}

fn structs(ctx: &Ctx, len: usize) {
    ctx.explore("structures", |ch, cx| {
        let inner = Class {
            name: "P",
            is_struct: true,
            fields: vec![("x", Ty::I32, Val::Int(0)), ("y", Ty::I32, Val::Int(0))],
            ..Class::default()
        };
        let zero = Val::Struct(s("P"), vec![Val::Int(0), Val::Int(0)]);
        let outer = Class {
            name: "Q",
            is_struct: true,
            fields: vec![("n", Ty::I32, Val::Int(0)), ("p", Ty::Struct("P"), zero.clone())],
            ..Class::default()
        };
        let zeroq = Val::Struct(s("Q"), vec![Val::Int(0), zero.clone()]);
        let hold = Class {
            name: "Hold",
            fields: vec![("q", Ty::Struct("Q"), zeroq.clone()), ("r", Ty::Ref("Hold"), Val::Null)],
            ..Class::default()
        };
        let arr = Ty::Arr(Box::new(Ty::Struct("P")));
        let swap = Func {
            key: "Change",
            quals: "public ",
            params: vec![Param { out: true, ..par("o", Ty::Struct("P")) }, par("i", Ty::Struct("P"))],
            ret: Some(Ty::Struct("P")),
            body: vec![
                St::Ex(E::Assign(b(E::Field(b(E::Var("o")), "x")), b(E::Field(b(E::Var("i")), "y")))),
                St::Ex(E::Assign(b(E::Field(b(E::Var("i")), "x")), b(lit(77)))),
                St::Return(Some(E::Var("i"))),
            ],
            ..Func::default()
        };
        let v = |k: i32| E::Call("V", vec![lit(k)]);
        let f = |e: E, n: &'static str| E::Field(b(e), n);
        let mut body = vec![
            St::Let("p", None, Some(E::Make("P", vec![v(1), v(2)])), Val::Unit),
            St::Let("q", Some(Ty::Struct("Q")), None, zeroq),
            St::Let("h", None, Some(E::New("Hold")), Val::Unit),
            St::Let("a", None, Some(E::ArrLit(vec![E::Make("P", vec![v(3), v(4)]), E::Var("p")])), Val::Unit),
        ];
        let _ = arr;
        let points = [
            E::Var("p"),
            f(E::Var("q"), "p"),
            f(f(E::Var("h"), "q"), "p"),
            E::Index(b(E::Var("a")), b(lit(0))),
            E::Index(b(E::Var("a")), b(lit(1))),
        ];
        for i in 0..len {
            let p = ch.of(&points).clone();
            body.push(match ch.pick(5) {
                0 => St::Ex(E::Assign(b(f(p, "x")), b(v(10 + i as i32)))),
                1 => St::Ex(E::OpAssign("+", b(f(p, "y")), b(v(20 + i as i32)))),
                2 => {
                    let o = ch.of(&points).clone();
                    St::Ex(E::Assign(b(p), b(o)))
                }
                3 => {
                    let o = ch.of(&points).clone();
                    St::Ex(E::Assign(b(E::Var("p")), b(E::Call("Change", vec![p, o]))))
                }
                _ => St::Ex(E::Assign(b(E::Var("q")), b(E::Make("Q", vec![f(p.clone(), "y"), p])))),
            });
        }
        for p in &points {
            body.push(St::Ex(E::Call("T", vec![f(p.clone(), "x")])));
            body.push(St::Ex(E::Call("T", vec![f(p.clone(), "y")])));
        }
        body.push(St::Ex(E::Call("T", vec![f(E::Var("q"), "n")])));
        check(&Prog { classes: vec![inner, outer, hold], funcs: vec![swap, main_fn(body)] }, "Main", 0, cx)
    });
}

// ---------------------------------------------------------------- texts, conversions, literals

fn texts(ctx: &Ctx, len: usize) {
    ctx.explore("interpolation", |ch, cx| {
        let mut body = vec![
            St::Let("x", None, Some(lit(5)), Val::Unit),
            St::Let("t", None, Some(string("ab")), Val::Unit),
        ];
        let prefix = *ch.of(&["", "p"]);
        let n = ch.pick(len + 1);
        let mut parts = vec![];
        for i in 0..n {
            let k = i as i32;
            let e = match ch.pick(9) {
                0 => E::Var("x"),
                1 => E::Var("t"),
                2 => E::Call("V", vec![lit(k + 10)]),
                3 => E::Call("VS", vec![string("v")]),
                4 => E::Call("C", vec![lit(k)]),
                5 => E::Cond(b(E::Call("C", vec![lit(k)])), b(E::Var("t")), b(E::Call("VS", vec![string("w")]))),
                6 => E::Interp("(".into(), vec![(E::Var("x"), ")".into())]),
                7 => E::Bin("+", b(E::Var("t")), b(E::Var("t"))),
                _ => E::OpAssign("+", b(E::Var("x")), b(lit(1))),
            };
            parts.push((e, (*ch.of(if i == 0 { &["", " ", "q\u{17c}"][..] } else { &["", " "] })).to_owned()));
        }
        body.push(St::Ex(E::Call("TS", vec![E::Interp(prefix.into(), parts)])));
        check(&Prog { classes: vec![], funcs: vec![main_fn(body)] }, "Main", 3, cx)
    });
}

/// literals where a type is expected, and the conversions the text does not show
fn conversions(ctx: &Ctx) {
    ctx.explore("conversions", |ch, cx| {
        let classes = || {
            vec![
                Class { name: "A", fields: vec![("n", Ty::I32, Val::Int(0))], ..Class::default() },
                Class { name: "B", base: Some("A"), ..Class::default() },
                Class {
                    name: "H",
                    fields: vec![
                        ("i", Ty::I32, Val::Int(0)),
                        ("f", Ty::Float, Val::Float(0.0)),
                        ("d", Ty::Double, Val::Double(0.0)),
                        ("l", Ty::I64, Val::I64(0)),
                        ("u", Ty::U64, Val::U64(0)),
                        ("s", Ty::Str, Val::Str(s(""))),
                        ("v", Ty::Variant, Val::Unit),
                        ("r", Ty::Ref("A"), Val::Null),
                        ("w", Ty::WRef("A"), Val::Null),
                        ("a", Ty::Arr(Box::new(Ty::WRef("A"))), Val::Arr(vec![])),
                        ("g", Ty::Arr(Box::new(Ty::Float)), Val::Arr(vec![])),
                    ],
                    ..Class::default()
                },
            ]
        };
        let num = |t: &str, v: Val| E::Lit(t.into(), v);
        let some = |k: &'static str| E::Var(k);
        // what stands there, and what is expected of it
        let place = ch.pick(6);
        let (ty, field, e, probe): (Ty, &'static str, E, Option<&'static str>) = match ch.pick(34) {
            24 => (Ty::Double, "d", num("16777217", Val::Double(16777217.0)), Some("TD")),
            26 => (Ty::Float, "f", num("16777217", Val::Float(16777216.0)), Some("TF")),
            28 => (Ty::Double, "d", num("0.1", Val::Double(f64::from(0.1f32))), Some("TD")),
            29 => (Ty::Double, "d", num("0.1d", Val::Double(0.1)), Some("TD")),
            25 => (Ty::I64, "l", num("-2147483648", Val::I64(i64::from(i32::MIN))), Some("TL")),
            27 => (Ty::I64, "l", num("2147483647", Val::I64(i64::from(i32::MAX))), Some("TL")),
            30 => (Ty::I64, "l", num("9223372036854775807l", Val::I64(i64::MAX)), Some("TL")),
            31 => (Ty::U64, "u", num("4294967295u", Val::U64(u64::from(u32::MAX))), Some("TU")),
            32 => (Ty::U64, "u", num("18446744073709551615ul", Val::U64(u64::MAX)), Some("TU")),
            33 => (Ty::I32, "i", num("2147483647", Val::Int(i32::MAX)), Some("T")),
            0 => (Ty::Float, "f", num("3", Val::Float(3.0)), Some("TF")),
            1 => (Ty::Float, "f", num("-3.0", Val::Float(-3.0)), Some("TF")),
            2 => (Ty::Float, "f", num("1.5", Val::Float(1.5)), Some("TF")),
            3 => (Ty::Double, "d", num("3", Val::Double(3.0)), Some("TD")),
            4 => (Ty::Double, "d", num("1.5", Val::Double(1.5)), Some("TD")),
            5 => (Ty::Double, "d", num("1.5d", Val::Double(1.5)), Some("TD")),
            6 => (Ty::I64, "l", num("3", Val::I64(3)), Some("TL")),
            7 => (Ty::I64, "l", num("4l", Val::I64(4)), Some("TL")),
            8 => (Ty::U64, "u", num("3u", Val::U64(3)), Some("TU")),
            9 => (Ty::U64, "u", num("3ul", Val::U64(3)), Some("TU")),
            10 => (Ty::I32, "i", num("-2147483648", Val::Int(i32::MIN)), Some("T")),
            11 => (Ty::I32, "i", num("0031", Val::Int(31)), Some("T")),
            12 => (Ty::Variant, "v", E::ToVariant(b(lit(3))), Some("TW")),
            13 => (Ty::Variant, "v", E::ToVariant(b(string("t"))), Some("TW")),
            14 => (Ty::Variant, "v", E::ToVariant(b(some("rb"))), Some("TW")),
            15 => (Ty::Variant, "v", E::ToVariant(b(some("arr"))), Some("TW")),
            // an array literal is of the type of its elements
            16 | 17 | 18 | 20 | 21 if place == 4 => (Ty::Ref("B"), "r", some("rb"), None),
            16 => (Ty::Ref("A"), "r", some("rb"), None),
            17 => (Ty::Ref("A"), "r", some("wb"), None),
            18 => (Ty::Ref("A"), "r", E::Null, None),
            19 => (Ty::WRef("A"), "w", some("rb"), None),
            20 => (Ty::WRef("A"), "w", some("wb"), None),
            21 => (Ty::WRef("A"), "w", E::Null, None),
            22 => (Ty::Arr(Box::new(Ty::WRef("A"))), "a", E::ArrLit(vec![some("rb"), E::Null, some("wb")]), None),
            _ => (Ty::Arr(Box::new(Ty::Float)), "g", E::ArrLit(vec![num("1", Val::Float(1.0)), num("2.5", Val::Float(2.5))]), None),
        };
        let mut body = vec![
            St::Let("rb", None, Some(E::New("B")), Val::Unit),
            St::Let("wb", Some(Ty::WRef("B")), Some(E::Var("rb")), Val::Unit),
            St::Let("arr", None, Some(E::ArrLit(vec![lit(8), lit(9)])), Val::Unit),
            St::Let("h", None, Some(E::New("H")), Val::Unit),
        ];
        let show = |e: E, out: &mut Vec<St>| {
            match (&ty, probe) {
                (_, Some(p)) => out.push(St::Ex(E::Call(p, vec![e]))),
                (Ty::Arr(_), _) => {
                    out.push(St::For("it", e, vec![match field {
                        "g" => St::Ex(E::Call("TF", vec![E::Var("it")])),
                        _ => St::Ex(E::Call("TB", vec![E::Intr("IsDefined", None, vec![E::Var("it")], Val::Unit)])),
                    }]));
                }
                _ => {
                    out.push(St::Ex(E::Call("TB", vec![E::Intr("IsDefined", None, vec![e.clone()], Val::Unit)])));
                    out.push(St::Ex(E::Call("TB", vec![E::Intr("Equals", None, vec![e.clone(), E::Null], Val::Unit)])));
                    // through whatever reference it is, the object is the same
                    out.push(St::Ex(E::Assign(b(E::Field(b(e), "n")), b(lit(6)))));
                    out.push(St::Ex(E::Call("T", vec![E::Field(b(E::Var("rb")), "n")])));
                }
            }
        };
        let mut funcs = vec![];
        let pass = Func { key: "Pass", quals: "public ", params: vec![par("p", ty.clone())], ret: Some(ty.clone()), body: ret(E::Var("p")), ..Func::default() };
        let give = Func {
            key: "Give",
            quals: "public ",
            params: vec![par("rb", Ty::Ref("B")), par("wb", Ty::WRef("B")), par("arr", Ty::Arr(Box::new(Ty::I32)))],
            ret: Some(ty.clone()),
            body: ret(e.clone()),
            ..Func::default()
        };
        match place {
            0 => {
                body.push(St::Let("x", Some(ty.clone()), Some(e.clone()), Val::Unit));
                show(E::Var("x"), &mut body);
            }
            1 => {
                body.push(St::Ex(E::Assign(b(E::Field(b(E::Var("h")), field)), b(e.clone()))));
                show(E::Field(b(E::Var("h")), field), &mut body);
            }
            2 => {
                funcs.push(pass);
                body.push(St::Let("x", None, Some(E::Call("Pass", vec![e.clone()])), Val::Unit));
                show(E::Var("x"), &mut body);
            }
            3 => {
                funcs.push(give);
                body.push(St::Let("x", None, Some(E::Call("Give", vec![E::Var("rb"), E::Var("rb"), E::Var("arr")])), Val::Unit));
                show(E::Var("x"), &mut body);
            }
            4 => {
                body.push(St::Let("xs", Some(Ty::Arr(Box::new(ty.clone()))), Some(E::ArrLit(vec![e.clone()])), Val::Unit));
                body.push(St::Ex(E::Intr("ArrayPush", None, vec![E::Var("xs"), e.clone()], Val::Unit)));
                show(E::Index(b(E::Var("xs")), b(lit(1))), &mut body);
                show(E::Index(b(E::Var("xs")), b(lit(0))), &mut body);
            }
            _ => {
                body.push(St::Let("x", Some(ty.clone()), Some(e.clone()), Val::Unit));
                body.push(St::Ex(E::Assign(b(E::Var("x")), b(e.clone()))));
                show(E::Var("x"), &mut body);
            }
        }
        funcs.push(main_fn(body));
        check(&Prog { classes: classes(), funcs }, "Main", 2, cx)
    });
}

/// a local that is declared without a value holds the default of its type, every time
fn defaults(ctx: &Ctx) {
    ctx.explore("defaults", |ch, cx| {
        let p = Class { name: "P", is_struct: true, fields: vec![("x", Ty::I32, Val::Int(0))], ..Class::default() };
        let a = Class { name: "A", ..Class::default() };
        let int = Ty::Arr(Box::new(Ty::I32));
        let (ty, zero, other, probe) = match ch.pick(12) {
            0 => (Ty::I32, Val::Int(0), lit(3), "T"),
            1 => (Ty::Bool, Val::Bool(false), boolean(true), "TB"),
            2 => (Ty::Str, Val::Str(s("")), string("q"), "TS"),
            3 => (Ty::Float, Val::Float(0.0), E::Lit("2.5".into(), Val::Float(2.5)), "TF"),
            4 => (Ty::Double, Val::Double(0.0), E::Lit("2.5d".into(), Val::Double(2.5)), "TD"),
            5 => (Ty::I64, Val::I64(0), E::Lit("2l".into(), Val::I64(2)), "TL"),
            6 => (Ty::U64, Val::U64(0), E::Lit("2ul".into(), Val::U64(2)), "TU"),
            7 => (Ty::Name, Val::Name(s("")), E::Lit("n\"q\"".into(), Val::Name(s("q"))), "TN"),
            8 => (int, Val::Arr(vec![]), E::ArrLit(vec![lit(1)]), "TA"),
            9 => (Ty::Ref("A"), Val::Null, E::New("A"), "d"),
            10 => (Ty::WRef("A"), Val::Null, E::New("A"), "d"),
            _ => (Ty::Struct("P"), Val::Struct(s("P"), vec![Val::Int(0)]), E::Make("P", vec![lit(9)]), "x"),
        };
        let show = || match probe {
            "d" => St::Ex(E::Call("TB", vec![E::Intr("IsDefined", None, vec![E::Var("v")], Val::Unit)])),
            "x" => St::Ex(E::Call("T", vec![E::Field(b(E::Var("v")), "x")])),
            p => St::Ex(E::Call(p, vec![E::Var("v")])),
        };
        let decl = St::Let("v", Some(ty.clone()), None, zero);
        let set = St::Ex(E::Assign(b(E::Var("v")), b(other)));
        let round = vec![decl, show(), set, show()];
        let two = E::ArrLit(vec![lit(1), lit(2)]);
        let c = |k: i32| E::Call("C", vec![lit(k)]);
        let body = match ch.pick(5) {
            0 => round,
            1 => vec![St::While(c(1), round)],
            2 => vec![St::For("it", two, round)],
            3 => vec![St::If(c(1), round.clone(), Some(round.clone())), St::If(c(2), round, None)],
            _ => vec![St::While(c(1), vec![St::Switch(E::Call("N", vec![lit(2)]), vec![(lit(1), round.clone())], Some(round))])],
        };
        check(&Prog { classes: vec![p, a], funcs: vec![main_fn(body)] }, "Main", 4, cx)
    });
}

/// array literals in every kind of statement and expression
fn literals(ctx: &Ctx) {
    ctx.explore("array literals", |ch, cx| {
        // the elements are evaluated before the rest of the statement: where that would show they
        // are plain variables here
        let place = ch.pick(16);
        let plain = matches!(place, 6 | 8 | 9 | 11..);
        let el = |k: i32| if plain { E::Var("x") } else { E::Call("V", vec![lit(k)]) };
        let n = ch.pick(3);
        let nested = n > 0 && ch.flag();
        let arr = E::ArrLit((0..n).map(|i| el(50 + i as i32)).collect());
        let arr = if n == 0 { E::Var("none") } else { arr };
        let size = |a: E| E::Call("Size", vec![a]);
        let arr = if nested { E::ArrLit(vec![size(arr), el(60)]) } else { arr };
        let c = |k: i32| E::Call("C", vec![lit(k)]);
        let t = |k: i32| St::Ex(E::Call("T", vec![lit(k)]));
        let one = E::Bin("==", b(size(arr.clone())), b(lit(1)));
        let some = E::Bin(">", b(size(arr.clone())), b(lit(0)));
        let mut body = vec![
            St::Let("none", Some(Ty::Arr(Box::new(Ty::I32))), None, Val::Arr(vec![])),
            St::Let("x", None, Some(lit(3)), Val::Unit),
        ];
        let inc = St::Ex(E::OpAssign("+", b(E::Var("x")), b(lit(1))));
        match place {
            0 => body.push(St::Ex(E::Call("TA", vec![arr]))),
            1 => body.push(St::Let("y", None, Some(size(arr)), Val::Unit)),
            2 => body.push(St::If(one, vec![t(1)], Some(vec![t(2)]))),
            3 => body.push(St::If(c(1), vec![St::Ex(E::Call("TA", vec![arr.clone()]))], Some(vec![t(2), St::Ex(E::Call("TA", vec![arr]))]))),
            4 => body.push(St::While(some, vec![t(1), St::If(c(2), vec![St::Break], None)])),
            5 => body.push(St::While(c(1), vec![St::Ex(E::Call("TA", vec![arr]))])),
            6 => body.push(St::While(E::Bin("&&", b(some), b(c(1))), vec![t(1), inc, St::Ex(E::Call("TA", vec![arr]))])),
            7 => body.push(St::Switch(size(arr), vec![(lit(1), vec![t(1), St::Break]), (lit(2), vec![t(2)])], Some(vec![t(3)]))),
            8 => body.push(St::Switch(E::Call("N", vec![lit(1)]), vec![(size(arr.clone()), vec![t(1), St::Break]), (lit(2), vec![t(2), St::Ex(E::Call("TA", vec![arr]))])], Some(vec![t(3)]))),
            9 => body.push(St::Switch(E::Call("N", vec![lit(1)]), vec![(lit(2), vec![St::Ex(E::Call("TA", vec![arr.clone()])), St::Break]), (size(arr), vec![t(2)])], Some(vec![t(3)]))),
            10 => body.push(St::For("it", arr.clone(), vec![St::Ex(E::Call("T", vec![E::Var("it")])), St::Ex(E::Call("TA", vec![arr])), St::If(c(1), vec![St::Break], None)])),
            11 => body.push(St::Ex(E::Call("T", vec![E::Bin("+", b(el(1)), b(size(arr)))]))),
            12 => body.push(St::Ex(E::Call("T", vec![E::Cond(b(c(1)), b(size(arr)), b(el(2)))]))),
            13 => body.push(St::Ex(E::Call("T", vec![E::Cond(b(c(1)), b(el(2)), b(size(arr)))]))),
            14 => body.push(St::Ex(E::Call("TB", vec![E::Bin("&&", b(c(1)), b(some))]))),
            _ => body.push(St::Ex(E::Call("TB", vec![E::Bin("||", b(c(1)), b(some))]))),
        }
        body.push(St::Ex(E::Call("T", vec![E::Var("x")])));
        let size = Func {
            key: "Size",
            quals: "public ",
            params: vec![par("xs", Ty::Arr(Box::new(Ty::I32)))],
            ret: Some(Ty::I32),
            body: ret(E::Intr("ArraySize", None, vec![E::Var("xs")], Val::Unit)),
            ..Func::default()
        };
        check(&Prog { classes: vec![], funcs: vec![size, main_fn(body)] }, "Main", 4, cx)
    });
}

/// the same where the order shows
fn literal_order(ctx: &Ctx) {
    ctx.explore("array literal order", |ch, cx| {
        let arr = || E::ArrLit(vec![E::Call("V", vec![lit(5)])]);
        let at = || E::Index(b(arr()), b(lit(0)));
        let c = || E::Call("C", vec![lit(1)]);
        let v = || E::Call("V", vec![lit(1)]);
        let e = match ch.pick(3) {
            0 => E::Bin("+", b(v()), b(at())),
            1 => E::Cond(b(c()), b(v()), b(at())),
            _ => E::Cond(b(E::Bin("&&", b(c()), b(E::Bin(">", b(at()), b(lit(0)))))), b(lit(1)), b(lit(0))),
        };
        let body = vec![St::Ex(E::Call("T", vec![e]))];
        check(&Prog { classes: vec![], funcs: vec![main_fn(body)] }, "Main", 2, cx)
    });
}

pub fn run_flow(ctx: &Ctx) {
    let deep = ctx.thorough();
    if deep {
        flow(ctx, "control flow", 4, 3, 6, false);
        flow(ctx, "control flow with for", 4, 3, 4, true);
        scopes(ctx, 5, 3);
    } else {
        flow(ctx, "control flow", 4, 2, 3, false);
        flow(ctx, "control flow with for", 3, 2, 3, true);
        scopes(ctx, 3, 3);
    }
}

pub fn run_exprs(ctx: &Ctx) {
    let deep = ctx.thorough();
    exprs(ctx, "expressions", 2, false, deep);
    exprs(ctx, "conditions", 2, true, true);
    texts(ctx, if deep { 4 } else { 3 });
    conversions(ctx);
    literals(ctx);
    literal_order(ctx);
}

pub fn run_objects(ctx: &Ctx) {
    let deep = ctx.thorough();
    classes(ctx);
    arrays(ctx, if deep { 4 } else { 3 });
    structs(ctx, if deep { 4 } else { 3 });
    changes(ctx, if deep { 3 } else { 2 });
    defaults(ctx);
}
