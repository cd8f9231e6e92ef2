//! C26: types: which value may stand where, which overload a call means, what is refused.
use redscript::bundle::ConstantPool;

use crate::base;
use crate::c22::key;
use crate::lang::{s, Val, World};
use crate::util::{fail, Chooser, Ctx, Cx, Fail};
use crate::vm::Vm;
use crate::wf;

const CONTEXT: &str = "class A { public func me() -> Int32 = 1 } class B extends A {} class D {} struct S { let x: Int32; } struct Z { let x: Int32; } enum E { e = 5, } enum F { f = 5, } func Nop() {}\n";

thread_local! {
    static ALL: Vec<Src> = sources();
    static START: ConstantPool = {
        let mut pool = base::pool();
        let out = base::compile(&mut pool, &[CONTEXT]).unwrap();
        assert!(base::fatal(out.diagnostics()).is_none(), "harness: context");
        pool
    };
}

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Prim(&'static str),
    Ref(&'static str),
    Weak(&'static str),
    Struct(&'static str),
    Enum(&'static str),
    Arr(Box<Ty>),
    SRef(Box<Ty>),
    Variant,
    Null,
    Void,
}
use Ty::{Arr, Enum, Null, Prim, Ref, SRef, Struct, Variant, Void, Weak};

fn arr(t: Ty) -> Ty {
    Arr(Box::new(t))
}

fn sref(t: Ty) -> Ty {
    SRef(Box::new(t))
}

impl Ty {
    fn text(&self) -> String {
        match self {
            Prim(n) | Struct(n) | Enum(n) => (*n).into(),
            Ref(c) => format!("ref<{c}>"),
            Weak(c) => format!("wref<{c}>"),
            Arr(t) => format!("array<{}>", t.text()),
            SRef(t) => format!("script_ref<{}>", t.text()),
            Variant => "Variant".into(),
            Null | Void => unreachable!("no name"),
        }
    }
}

fn up(sub: &str, sup: &str) -> bool {
    let bases: &[&str] = match sub {
        "B" => &["B", "A", "IScriptable"],
        "A" => &["A", "IScriptable"],
        "D" => &["D", "IScriptable"],
        _ => &[],
    };
    bases.contains(&sup)
}

/// how a value of one type becomes one of another
#[derive(Clone, Copy, PartialEq, Debug)]
enum Conv {
    Same,
    Weaken,
    Strengthen,
    Refer,
    Wrap,
}

fn conv(from: &Ty, to: &Ty) -> Option<Conv> {
    if from == to {
        return (*from != Void).then_some(Conv::Same);
    }
    match (from, to) {
        (Void, _) => None,
        (Null, Ref(_)) => Some(Conv::Same),
        (Null, Weak(_)) => Some(Conv::Weaken),
        (Ref(a), Ref(b)) | (Weak(a), Weak(b)) if up(a, b) => Some(Conv::Same),
        (Weak(a), Ref(b)) if up(a, b) => Some(Conv::Strengthen),
        (Ref(a), Weak(b)) if up(a, b) => Some(Conv::Weaken),
        (f, SRef(t)) if conv(f, t) == Some(Conv::Same) => Some(Conv::Refer),
        (_, Variant) => Some(Conv::Wrap),
        _ => None,
    }
}

/// the type that the values of two types have in common
fn common(a: &Ty, b: &Ty) -> Option<Ty> {
    let meet = |x: &'static str, y: &'static str| {
        if up(x, y) {
            y
        } else if up(y, x) {
            x
        } else {
            "IScriptable"
        }
    };
    match (a, b) {
        (Void, _) | (_, Void) => None,
        _ if a == b => Some(a.clone()),
        (Ref(_) | Weak(_), Null) => Some(a.clone()),
        (Null, Ref(_) | Weak(_)) => Some(b.clone()),
        (Ref(x), Ref(y)) => Some(Ref(meet(x, y))),
        (Weak(x), Weak(y)) => Some(Weak(meet(x, y))),
        _ => None,
    }
}

fn apply(v: &Val, c: Conv) -> Val {
    match c {
        Conv::Wrap => Val::Variant(Box::new(v.clone())),
        _ => v.clone(),
    }
}

/// a value a program computes: its type, and whether it is kept in a place or is a constant
#[derive(Clone, Debug)]
struct Src {
    setup: &'static str,
    expr: &'static str,
    ty: Ty,
    val: Val,
    /// number of a literal, if it is one
    num: Option<f64>,
    temp: bool,
    objects: usize,
}

fn obj(v: &Val, base: usize) -> Val {
    match v {
        Val::Obj(o) => Val::Obj(o + base),
        Val::Arr(vs) => Val::Arr(vs.iter().map(|v| obj(v, base)).collect()),
        Val::Variant(v) => Val::Variant(Box::new(obj(v, base))),
        v => v.clone(),
    }
}

impl Src {
    fn setup(&self, n: usize) -> String {
        self.setup.replace('#', &n.to_string())
    }
    fn expr(&self, n: usize) -> String {
        self.expr.replace('#', &n.to_string())
    }
    /// the type and the value where a type is expected
    fn at(&self, want: &Ty) -> (Ty, Val) {
        if let (Some(x), Prim(t)) = (self.num, want) {
            let v = match (&self.ty, *t) {
                (Prim("Int32"), "Float") => Some(Val::Float(x as f32)),
                (Prim("Int32" | "Float"), "Double") => Some(Val::Double(x)),
                (Prim("Int32"), "Int64") => Some(Val::I64(x as i64)),
                (Prim("Uint32"), "Uint64") => Some(Val::U64(x as u64)),
                _ => None,
            };
            if let Some(v) = v {
                return (want.clone(), v);
            }
        }
        (self.ty.clone(), self.val.clone())
    }
}

fn sources() -> Vec<Src> {
    let mut v = vec![];
    let mut add = |setup, expr, ty, val, objects| v.push(Src { setup, expr, ty, val, num: None, temp: false, objects });
    let a = |n| Val::Obj(n);
    add("let a#: ref<A> = new A();", "a#", Ref("A"), a(0), 1);
    add("let a#: ref<B> = new B();", "a#", Ref("B"), a(0), 1);
    add("let a#: ref<D> = new D();", "a#", Ref("D"), a(0), 1);
    add("let a#: wref<A> = new A();", "a#", Weak("A"), a(0), 1);
    add("let a#: wref<B> = new B();", "a#", Weak("B"), a(0), 1);
    add("let a# = new S(3);", "a#", Struct("S"), Val::Struct(s("S"), vec![Val::Int(3)]), 0);
    add("let a# = new Z(3);", "a#", Struct("Z"), Val::Struct(s("Z"), vec![Val::Int(3)]), 0);
    add("let a# = E.e;", "a#", Enum("E"), Val::Enum(s("E"), 5), 0);
    add("let a# = F.f;", "a#", Enum("F"), Val::Enum(s("F"), 5), 0);
    add("let a#: Bool = true;", "a#", Prim("Bool"), Val::Bool(true), 0);
    add("let a#: Int32 = 7;", "a#", Prim("Int32"), Val::Int(7), 0);
    add("let a#: Uint32 = 7u;", "a#", Prim("Uint32"), Val::U32(7), 0);
    add("let a#: Int64 = 7l;", "a#", Prim("Int64"), Val::I64(7), 0);
    add("let a#: Uint64 = 7ul;", "a#", Prim("Uint64"), Val::U64(7), 0);
    add("let a#: Float = 1.5;", "a#", Prim("Float"), Val::Float(1.5), 0);
    add("let a#: Double = 1.5d;", "a#", Prim("Double"), Val::Double(1.5), 0);
    add("let a#: String = \"q\";", "a#", Prim("String"), Val::Str(s("q")), 0);
    add("let a#: CName = n\"q\";", "a#", Prim("CName"), Val::Name(s("q")), 0);
    add("let a#: Variant = ToVariant(2);", "a#", Variant, Val::Variant(Box::new(Val::Int(2))), 0);
    add("let a#: array<Int32>; ArrayPush(a#, 4);", "a#", arr(Prim("Int32")), Val::Arr(vec![Val::Int(4)]), 0);
    add("let a#: array<ref<A>>; ArrayPush(a#, new A());", "a#", arr(Ref("A")), Val::Arr(vec![a(0)]), 1);
    add("let a#: array<ref<B>>; ArrayPush(a#, new B());", "a#", arr(Ref("B")), Val::Arr(vec![a(0)]), 1);
    add("let a#: array<wref<B>>; ArrayPush(a#, new B());", "a#", arr(Weak("B")), Val::Arr(vec![a(0)]), 1);
    add("let k#: Int32 = 9; let a#: script_ref<Int32> = AsRef(k#);", "a#", sref(Prim("Int32")), Val::Int(9), 0);
    add("let k# = new B(); let a#: script_ref<ref<B>> = AsRef(k#);", "a#", sref(Ref("B")), a(0), 1);
    let temp = |expr, ty, val| Src { setup: "", expr, ty, val, num: None, temp: true, objects: 0 };
    v.push(temp("null", Null, Val::Null));
    v.push(temp("Nop()", Void, Val::Unit));
    v.push(Src { objects: 1, ..temp("new B()", Ref("B"), a(0)) });
    let lit = |expr, t, val, num| Src { setup: "", expr, ty: Prim(t), val, num, temp: false, objects: 0 };
    v.push(lit("1", "Int32", Val::Int(1), Some(1.)));
    v.push(lit("1u", "Uint32", Val::U32(1), Some(1.)));
    v.push(lit("1l", "Int64", Val::I64(1), None));
    v.push(lit("1ul", "Uint64", Val::U64(1), None));
    v.push(lit("2.5", "Float", Val::Float(2.5), Some(2.5)));
    v.push(lit("2.5d", "Double", Val::Double(2.5), None));
    v.push(lit("\"s\"", "String", Val::Str(s("s")), None));
    v.push(lit("n\"s\"", "CName", Val::Name(s("s")), None));
    v.push(lit("false", "Bool", Val::Bool(false), None));
    v
}

fn some(ch: &mut Chooser) -> Src {
    ALL.with(|all| ch.of(all).clone())
}

fn targets() -> Vec<Ty> {
    let mut v: Vec<Ty> =
        ["Bool", "Int32", "Uint32", "Int64", "Uint64", "Float", "Double", "String", "CName"].iter().map(|n| Prim(n)).collect();
    v.extend([Ref("A"), Ref("B"), Ref("D"), Ref("IScriptable"), Weak("A"), Weak("B"), Weak("D")]);
    v.extend([Struct("S"), Struct("Z"), Enum("E"), Enum("F"), Variant]);
    v.extend([arr(Prim("Int32")), arr(Prim("Float")), arr(Ref("A")), arr(Ref("B")), arr(Weak("B"))]);
    v.extend([sref(Prim("Int32")), sref(Prim("Float")), sref(Ref("A")), sref(Ref("B")), sref(Struct("S"))]);
    v
}

/// the value of a source where a type is wanted, or nothing where it may not stand
fn becomes(src: &Src, want: &Ty) -> Option<Val> {
    let (ty, v) = src.at(want);
    let c = conv(&ty, want)?;
    Some(apply(&v, c))
}

/// the same where the value is worked out before it is known what is wanted
fn becomes_late(src: &Src, want: &Ty) -> Option<Val> {
    let c = conv(&src.ty, want)?;
    Some(apply(&src.val, c))
}

fn run_main(text: &str) -> Result<Result<Vec<String>, String>, String> {
    let mut pool = START.with(Clone::clone);
    match base::compile(&mut pool, &[text]).and_then(|o| base::fatal(o.diagnostics()).map_or(Ok(()), Err)) {
        Ok(()) => {}
        Err(e) => return Ok(Err(e)),
    }
    wf::check(&pool, false).map_err(|e| format!("leaves a pool that is not well-formed: {e}"))?;
    let mut world = World::new(0);
    let Some(f) = Vm::new(&pool, &mut World::new(0)).find(None, "Main") else {
        return Err("there is no Main".into());
    };
    let mut vm = Vm::new(&pool, &mut world);
    match vm.call(f, None, vec![]) {
        Ok(_) => Ok(Ok(world.log)),
        Err(crate::lang::Stop::Bad(m)) => Err(format!("does not run: {m}")),
        Err(_) => Err("asks".into()),
    }
}

fn decide(text: &str, want: Option<Vec<String>>, cx: &mut Cx) -> Result<(), Fail> {
    cx.case(|| text.to_owned());
    cx.state();
    let got = match run_main(text) {
        Ok(g) => g,
        Err(e) => return fail(key(text), format!("{text}\n{e}")),
    };
    cx.step();
    match (want, got) {
        (None, Err(_)) => {}
        (Some(w), Ok(g)) if w == g => {}
        (Some(w), g) => return fail(key(text), format!("{text}\nshould say {w:?}, but {g:?}")),
        (None, Ok(g)) => return fail(key(text), format!("{text}\nshould be refused, but says {g:?}")),
    }
    cx.trace();
    cx.sample(|| text.to_owned());
    Ok(())
}

fn said(v: &Val) -> String {
    format!("TW({:?})", Val::Variant(Box::new(v.clone())).canon())
}

/// shows what an expression of a type holds
fn show(e: &str, t: &Ty) -> String {
    match t {
        Variant => format!("TW({e});"),
        _ => format!("TW(ToVariant({e}));"),
    }
}

fn seen(v: &Val, t: &Ty) -> Vec<String> {
    vec![match t {
        Variant => format!("TW({:?})", v.canon()),
        _ => said(v),
    }]
}

const PLACES: usize = 13;

/// a program that puts a value where a type is wanted, and shows what is there
fn placed(place: usize, setup: &str, e: &str, t: &Ty) -> String {
    let ty = t.text();
    let sh = |x: &str| show(x, t);
    match place {
        0 => format!("func Main() {{ {setup} let t: {ty} = {e}; {} }}", sh("t")),
        1 => format!("func Main() {{ {setup} let t: {ty}; t = {e}; {} }}", sh("t")),
        2 => format!("class H {{ let f: {ty}; }} func Main() {{ {setup} let h = new H(); h.f = {e}; {} }}", sh("h.f")),
        3 => format!("func take(p: {ty}) {{ {} }} func Main() {{ {setup} take({e}); }}", sh("p")),
        4 => format!("class H {{ func take(p: {ty}) {{ {} }} }} func Main() {{ {setup} let h = new H(); h.take({e}); }}", sh("p")),
        5 => format!("func give() -> {ty} {{ {setup} return {e}; }} func Main() {{ {} }}", sh("give()")),
        6 => format!("func Main() {{ {setup} let l: array<{ty}>; ArrayPush(l, {e}); {} }}", sh("l[0]")),
        7 => format!("struct K {{ let f: {ty}; }} func Main() {{ {setup} let k = new K({e}); {} }}", sh("k.f")),
        8 => format!("func Main() {{ {setup} let l: array<{ty}> = [{e}]; {} }}", sh("l[0]")),
        9 => format!("class H {{ static func take(opt p: {ty}) {{ {} }} }} func Main() {{ {setup} H.take({e}); }}", sh("p")),
        10 => format!("func Main() {{ {setup} let l: array<{ty}>; ArrayInsert(l, 0, {e}); {} }}", sh("l[0]")),
        11 => format!("struct K {{ let f: {ty}; }} func Main() {{ {setup} let k: K; k.f = {e}; {} }}", sh("k.f")),
        _ => format!("func take(p: array<{ty}>) {{ {} }} func Main() {{ {setup} take([{e}]); }}", sh("p[0]")),
    }
}

fn matrix(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let src = some(ch);
    let want = ch.of(&targets()).clone();
    let place = ch.pick(PLACES);
    // an object of the class that holds the value comes after those of the value, or before
    let text = placed(place, &src.setup(0), &src.expr(0), &want);
    let shift = usize::from(src.objects > 0 && src.setup.is_empty() && matches!(place, 2 | 4));
    let v = becomes(&src, &want).map(|v| seen(&obj(&v, shift), &want));
    decide(&text, v, cx)
}

/// two values, one of which is taken
fn either(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (x, y) = (some(ch), some(ch));
    let want = ch.of(&targets()).clone();
    let first = ch.flag();
    let place = [0, 3, 5][ch.pick(3)];
    let setup = format!("{} {}", x.setup(0), y.setup(1));
    let e = format!("{first} ? {} : {}", x.expr(0), y.expr(1));
    let text = placed(place, &setup, &e, &want);
    // literals take the type of what is before them
    let (yt, yv) = y.at(&x.ty);
    let v = common(&x.ty, &yt).and_then(|t| {
        // which objects there are depends on what is made
        let (v, ty, base) = if first {
            (&x.val, &x.ty, 0)
        } else {
            (&yv, &yt, if x.setup.is_empty() { 0 } else { x.objects })
        };
        let base = if first && x.setup.is_empty() { if y.setup.is_empty() { 0 } else { y.objects } } else { base };
        let v = obj(v, base);
        let v = apply(&v, conv(ty, &t)?);
        let c = conv(&t, &want)?;
        Some(apply(&v, c))
    });
    decide(&text, v.map(|v| seen(&v, &want)), cx)
}

/// literals of arrays, with a type that is expected of them and without
fn lists(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (x, y) = (some(ch), some(ch));
    let typed = ch.flag();
    let setup = format!("{} {}", x.setup(0), y.setup(1));
    let e = format!("[{}, {}]", x.expr(0), y.expr(1));
    let xb = if x.setup.is_empty() && !y.setup.is_empty() { y.objects } else { 0 };
    let yb = if y.setup.is_empty() || !x.setup.is_empty() || x.objects == 0 { x.objects } else { 0 };
    if typed {
        let want = ch.of(&targets()).clone();
        let place = ch.pick(3);
        let at = arr(want.clone());
        let text = placed([0, 3, 5][place], &setup, &e, &at);
        let v = becomes(&x, &want).and_then(|v| Some(Val::Arr(vec![obj(&v, xb), obj(&becomes(&y, &want)?, yb)])));
        decide(&text, v.map(|v| seen(&v, &at)), cx)
    } else {
        let text = format!("func Main() {{ {setup} let l = {e}; TW(ToVariant(l)); }}");
        let v = common(&x.ty, &y.ty).filter(|t| *t != Null || !typed).and_then(|t| {
            // null alone says nothing about what the array holds
            Some(Val::Arr(vec![obj(&becomes_late(&x, &t)?, xb), obj(&becomes_late(&y, &t)?, yb)]))
        });
        if x.ty == Null && y.ty == Null {
            return Ok(());
        }
        decide(&text, v.map(|v| vec![said(&v)]), cx)
    }
}

// ---------------------------------------------------------------- overloads

/// the parameters of one overload: their types, and how many may be left out
#[derive(Clone)]
struct Over {
    params: Vec<Ty>,
    opt: usize,
}

impl Over {
    fn params(&self) -> String {
        let n = self.params.len();
        self.params
            .iter()
            .enumerate()
            .map(|(i, t)| format!("{}p{i}: {}", if i + self.opt >= n { "opt " } else { "" }, t.text()))
            .collect::<Vec<_>>()
            .join(", ")
    }
    fn takes(&self, n: usize) -> bool {
        n <= self.params.len() && n + self.opt >= self.params.len()
    }
}

/// which of the overloads, in the order in which they are considered, a call means
fn chosen(overs: &[Over], args: &[Src]) -> Option<(usize, Vec<Val>)> {
    let fitting: Vec<usize> = (0..overs.len()).filter(|i| overs[*i].takes(args.len())).collect();
    for i in &fitting {
        let vals: Option<Vec<Val>> = args
            .iter()
            .zip(&overs[*i].params)
            .map(|(a, t)| {
                // what the arguments are does not depend on an overload unless it is the only one
                let (ty, v) = if fitting.len() == 1 { a.at(t) } else { (a.ty.clone(), a.val.clone()) };
                conv(&ty, t).map(|c| apply(&v, c))
            })
            .collect();
        if let Some(vals) = vals {
            return Some((*i, vals));
        }
    }
    None
}

const HOMES: usize = 6;

/// the overloads in a place, a call of them, and the order in which they are considered
fn home(home: usize, overs: &[Over], setup: &str, args: &str) -> (String, Vec<usize>) {
    let f = |i: usize, extra: &str| {
        let o = &overs[i];
        let sh: String = o.params.iter().enumerate().take(o.params.len() - o.opt).map(|(k, t)| show(&format!("p{k}"), t)).collect();
        format!("{extra}func f({}) {{ T({i}); {sh} }}\n", o.params())
    };
    let all: Vec<usize> = (0..overs.len()).collect();
    let each = |extra: &str| all.iter().map(|i| f(*i, extra)).collect::<String>();
    let (last, init) = all.split_last().unwrap();
    let lead: String = init.iter().map(|i| f(*i, "")).collect();
    match home {
        0 => (format!("{} func Main() {{ {setup} f({args}); }}", each("")), all),
        1 => (format!("class H {{ {} }} func Main() {{ {setup} let h = new H(); h.f({args}); }}", each("")), all),
        2 => (format!("class H {{ {} }} func Main() {{ {setup} H.f({args}); }}", each("static ")), all),
        // the last one is the derived class's own
        3 => (
            format!("class G {{ {lead} }} class H extends G {{ {} }} func Main() {{ {setup} let h = new H(); h.f({args}); }}", f(*last, "")),
            std::iter::once(*last).chain(init.iter().copied()).collect(),
        ),
        // and is defined before the base
        4 => (
            format!("class H extends G {{ {} func go() {{ {setup} this.f({args}); }} }} class G {{ {lead} }} func Main() {{ let h = new H(); h.go(); }}", f(*last, "")),
            std::iter::once(*last).chain(init.iter().copied()).collect(),
        ),
        _ => (format!("func Main() {{ {setup} f({args}); }} {}", each("")), all),
    }
}

fn overloads(ch: &mut Chooser, cx: &mut Cx, n: usize, arity: usize, menu: &[Ty], srcs: &[usize], homes: &[usize]) -> Result<(), Fail> {
    let mut overs: Vec<Over> = vec![];
    for _ in 0..n {
        let k = if arity > 1 { 1 + ch.pick(arity) } else { 1 };
        let params: Vec<Ty> = (0..k).map(|_| ch.of(menu).clone()).collect();
        let opt = if arity > 1 { ch.pick(2) } else { 0 };
        overs.push(Over { params, opt });
    }
    // what differs in nothing but how it refers to an object is the same function
    let mangled = |o: &Over| -> Vec<String> {
        o.params
            .iter()
            .map(|t| t.text().replace("wref<", "ref<"))
            .collect()
    };
    for i in 0..n {
        for j in 0..i {
            if mangled(&overs[i]) == mangled(&overs[j]) {
                return Ok(());
            }
        }
    }
    let k = if arity > 1 { ch.pick(arity + 1) } else { 1 };
    let args: Vec<Src> = (0..k).map(|_| ALL.with(|all| all[*ch.of(srcs)].clone())).collect();
    let h = *ch.of(homes);
    let setup: String = args.iter().enumerate().map(|(i, a)| a.setup(i)).collect();
    let list = args.iter().enumerate().map(|(i, a)| a.expr(i)).collect::<Vec<_>>().join(", ");
    let (text, order) = home(h, &overs, &setup, &list);
    let ordered: Vec<Over> = order.iter().map(|i| overs[*i].clone()).collect();
    // objects are counted in the order they are made
    let mut base = match h {
        4 => 1,
        _ => 0,
    };
    let mut at = vec![0; args.len()];
    for (i, a) in args.iter().enumerate() {
        if !a.setup.is_empty() {
            at[i] = base;
            base += a.objects;
        }
    }
    if matches!(h, 1 | 3) {
        base += 1;
    }
    for (i, a) in args.iter().enumerate() {
        if a.setup.is_empty() {
            at[i] = base;
            base += a.objects;
        }
    }
    let want = chosen(&ordered, &args).map(|(i, vals)| {
        let o = &ordered[i];
        let mut log = vec![format!("T(Int({}))", order[i])];
        for (k, (v, t)) in vals.iter().zip(&o.params).enumerate() {
            if k < o.params.len() - o.opt {
                log.extend(seen(&obj(v, at[k]), t));
            }
        }
        log
    });
    decide(&text, want, cx)
}

// ---------------------------------------------------------------- conversions by name, and operators

/// functions named Cast are told apart by what is wanted of them as well
fn casts(ch: &mut Chooser, cx: &mut Cx, deep: bool) -> Result<(), Fail> {
    let menu = [Prim("Int32"), Prim("Float"), Prim("String"), Ref("B"), Struct("S")];
    let outs = [
        (Prim("Int32"), "4", Val::Int(4)),
        (Prim("Float"), "4.5", Val::Float(4.5)),
        (Prim("String"), "\"c\"", Val::Str(s("c"))),
        (Struct("S"), "new S(6)", Val::Struct(s("S"), vec![Val::Int(6)])),
    ];
    let n = 2 + ch.pick(2);
    let few = if n == 2 || deep { 5 } else { 3 };
    let mut text = String::new();
    let mut sigs: Vec<(Ty, usize)> = vec![];
    for i in 0..n {
        let from = ch.of(&menu[..few]).clone();
        let to = ch.pick(outs.len().min(few));
        if sigs.contains(&(from.clone(), to)) {
            return Ok(());
        }
        text += &format!("func Cast(p: {}) -> {} {{ T({i}); return {}; }}\n", from.text(), outs[to].0.text(), outs[to].1);
        sigs.push((from, to));
    }
    let srcs: Vec<Src> = sources().into_iter().filter(|x| menu.contains(&x.ty)).collect();
    let src = ch.of(&srcs).clone();
    let how = ch.pick(5);
    let want = outs[ch.pick(outs.len())].0.clone();
    let (setup, e) = (src.setup(0), src.expr(0));
    // what the context wants of the value, if it wants anything
    let (body, wanted) = match how {
        0 => (format!("let t: {} = Cast({e}); {}", want.text(), show("t", &want)), Some(want.clone())),
        1 => (format!("let t = Cast<{}>({e}); {}", want.text(), show("t", &want)), Some(want.clone())),
        2 => (format!("let t = Cast({e}); TW(ToVariant(t));"), None),
        3 => (format!("let t: {}; t = Cast({e}); {}", want.text(), show("t", &want)), Some(want.clone())),
        _ => (format!("let t: Variant = Cast<{}>({e}); TW(t);", want.text()), Some(want.clone())),
    };
    if how == 2 && want != outs[0].0 {
        return Ok(());
    }
    let text = format!("{text}func Main() {{ {setup} {body} }}");
    let found = sigs.iter().position(|(from, to)| {
        conv(&src.ty, from).is_some() && wanted.as_ref().map_or(true, |w| conv(&outs[*to].0, w).is_some())
    });
    let want = found.map(|i| vec![format!("T(Int({i}))"), said(&outs[sigs[i].1].2)]);
    decide(&text, want, cx)
}

/// operators on types of one's own
fn operators(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let ops = [
        ("Add", "+"),
        ("Subtract", "-"),
        ("Multiply", "*"),
        ("Divide", "/"),
        ("Modulo", "%"),
        ("Or", "|"),
        ("And", "&"),
        ("Xor", "^"),
        ("Less", "<"),
        ("LessEqual", "<="),
        ("Greater", ">"),
        ("GreaterEqual", ">="),
        ("Equal", "=="),
        ("NotEqual", "!="),
        ("LogicAnd", "&&"),
        ("LogicOr", "||"),
    ];
    let n = ch.pick(ops.len());
    let m = [n, (n + 1) % ops.len()][ch.pick(2)];
    let menu = [Struct("S"), Struct("Z"), Ref("A"), Ref("B"), Prim("Int32")];
    let (l, r) = (ch.of(&menu).clone(), ch.of(&menu).clone());
    if l == Prim("Int32") && r == l {
        return Ok(());
    }
    let names = ["S", "Z", "B", "Int32"];
    let srcs: Vec<Src> = sources()
        .into_iter()
        .filter(|x| x.num.is_none() && !x.temp && matches!(&x.ty, Struct(n) | Ref(n) | Prim(n) if names.contains(n)))
        .collect();
    let (x, y) = (ch.of(&srcs).clone(), ch.of(&srcs).clone());
    if x.ty == Prim("Int32") && y.ty == x.ty {
        return Ok(());
    }
    let text = format!(
        "func Operator{}(l: {}, r: {}) -> String {{ {}{} return \"o\"; }}\nfunc Main() {{ {}{} TS({} {} {}); }}",
        ops[n].0,
        l.text(),
        r.text(),
        show("l", &l),
        show("r", &r),
        x.setup(0),
        y.setup(1),
        x.expr(0),
        ops[m].1,
        y.expr(1)
    );
    let v = if n == m {
        becomes(&x, &l).and_then(|a| {
            let b = becomes(&y, &r)?;
            let mut log = seen(&a, &l);
            log.extend(seen(&obj(&b, x.objects), &r));
            log.push(format!("TS({:?})", Val::Str(s("o"))));
            Some(log)
        })
    } else {
        None
    };
    decide(&text, v, cx)
}

// ---------------------------------------------------------------- refusals

/// expressions that mean nothing
const WRONG: [&str; 40] = [
    "x1",
    "Nope()",
    "new Nope()",
    "new IScriptable()",
    "new Abs()",
    "new S()",
    "new S(1, 2)",
    "new S(\"a\")",
    "new B(1)",
    "new E()",
    "new Int32()",
    "i.y",
    "a.y",
    "a.nope()",
    "i.me()",
    "Nop().me()",
    "b.me(1)",
    "N()",
    "N(1, 2)",
    "N(\"a\")",
    "N(Nop())",
    "E.nope",
    "A.me()",
    "st.x.y",
    "i[0]",
    "l[\"a\"]",
    "l[b]",
    "\"a\" + 1",
    "!i",
    "i && true",
    "true ? 1 : \"a\"",
    "i ? 1 : 2",
    "ArraySize(i)",
    "ArrayPush(l, \"a\")",
    "ArrayPush(l)",
    "EnumInt(i)",
    "i as Nope",
    "a as Nope",
    "[1, \"a\"]",
    "this.y",
];

const AROUND: [&str; 22] = [
    "%;",
    "let z = %;",
    "let z: Int32 = N(1); z = N(%);",
    "return; %;",
    "if N(1) == 1 { %; }",
    "if N(1) == 1 { } else { %; }",
    "if N(1) == 1 { } else { if true { N(2); %; } }",
    "while C(1) { %; }",
    "while C(1) { while C(2) { N(1); %; break; } }",
    "for q in l { %; }",
    "switch i { case 1: %; break; }",
    "switch i { case 1: break; default: %; }",
    "switch i { case 1: case 2: if C(1) { %; } break; }",
    "let z = [%];",
    "TW(ToVariant(%));",
    "TW(ToVariant([[%]]));",
    "for q in [%] { }",
    "let z = true ? % : %;",
    "N(N(N(1)) + Len([%]));",
    "l[Len([%])] = 1;",
    "(new H()).put(ToVariant(%));",
    "while Len([%]) > 0 { }",
];

fn refusals(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let e = *ch.of(&WRONG);
    let around = *ch.of(&AROUND);
    let owner = ch.pick(4);
    // a correct program of the same shape is accepted
    let right = ch.flag();
    let e = if right { "N(3)" } else { e };
    let vars = "let i: Int32 = 1; let a = new A(); let b = new B(); let st = new S(1); let l: array<Int32>;";
    let code = format!("{vars} {} T(0);", around.replace('%', e));
    let extra = "func Len(l: array<Int32>) -> Int32 = 3 abstract class Abs {} class H { func put(v: Variant) {} }";
    let text = match owner {
        0 => format!("{extra} func Main() {{}} func other() {{ {code} }}"),
        1 => format!("{extra} func Main() {{}} class K {{ func other() {{ {code} }} }}"),
        2 => format!("{extra} func Main() {{}} @addMethod(A) static func other() {{ {code} }}"),
        _ => format!("{extra} func Main() {{}} class K extends A {{ static func other() {{ {code} }} func more() {{}} }}"),
    };
    decide(&text, right.then(Vec::new), cx)
}

/// declarations that mean nothing
const WRONG_DECLS: [&str; 34] = [
    "func g(p: Nope) {}",
    "func g() -> Nope {}",
    "func g() -> Int32 { return; }",
    "func g() { return 1; }",
    "func g() -> Int32 { return \"a\"; }",
    "func g() -> Int32 = \"a\"",
    "func g() -> ref<B> = new A()",
    "func g();",
    "native func g() {}",
    "class K extends Nope {}",
    "class K { let f: Nope; }",
    "class K { let f: array<Nope>; }",
    "class K { func g(); }",
    "class K { native let f: Int32; }",
    "class K { native func g(); }",
    "class K { persistent let f: String; }",
    "class K { persistent let f: array<Variant>; }",
    "class K { let f: Int32 = \"a\"; }",
    "class K { let f: Int32 = 1 + 1; }",
    "class K { let f: ref<A> = new A(); }",
    "class K {} class K {}",
    "struct K {} class K {}",
    "class A {}",
    "@wrapMethod(A) func nope() {}",
    "@wrapMethod(A) func me(p: Int32) -> Int32 = 1",
    "@replaceMethod(A) func nope() {}",
    "@replaceMethod(Nope) func me() -> Int32 = 1",
    "@addMethod(Nope) func q() {}",
    "@addField(Nope) let q: Int32;",
    "@addField(A) let q: Nope;",
    "@wrapMethod() func me() -> Int32 = 1",
    "@replaceGlobal() func nope() {}",
    "class K { func g() { super.nope(); } }",
    "class K { static func g() { this.h(); } func h() {} }",
];

fn declarations(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let d = *ch.of(&WRONG_DECLS);
    let right = ch.flag();
    let d = if right { "class K { func g() {} }" } else { d };
    let around = [
        "%\nfunc Main() {}",
        "func Main() {}\n%",
        "class X {} % func Main() {} class Y extends X {}",
        "import Nowhere.*\nfunc Main() {}",
    ];
    let k = ch.pick(around.len());
    if k == 3 {
        return if right { Ok(()) } else { decide(around[3], None, cx) };
    }
    decide(&around[k].replace('%', d), right.then(Vec::new), cx)
}

pub fn run(ctx: &Ctx) {
    let deep = ctx.thorough();
    ctx.explore("one value in one place", matrix);
    ctx.explore("one of two values", either);
    ctx.explore("arrays of two values", lists);
    let srcs = sources();
    let all: Vec<usize> = (0..srcs.len()).collect();
    let menu = targets();
    let most: Vec<Ty> = menu
        .iter()
        .filter(|t| !matches!(t, Prim("Uint32" | "Uint64" | "CName") | Weak("D") | Ref("IScriptable")))
        .cloned()
        .collect();
    ctx.explore("two overloads", |ch, cx| overloads(ch, cx, 2, 1, &menu, &all, &[0, 1, 2, 3, 4, 5][..HOMES]));
    let few = [Prim("Int32"), Prim("Float"), Ref("A"), Ref("B"), Weak("A"), Variant, sref(Prim("Int32")), sref(Ref("A")), Struct("S")];
    let pick = |xs: &[&str]| -> Vec<usize> { all.iter().copied().filter(|i| xs.contains(&&*format!("{}{}", srcs[*i].expr, srcs[*i].ty_text()))).collect() };
    let args = pick(&["a#ref<A>", "a#ref<B>", "a#wref<B>", "a#Int32", "a#S", "null", "1Int32", "2.5Float", "new B()ref<B>", "a#script_ref<Int32>"]);
    assert_eq!(args.len(), 10, "harness: arguments");
    ctx.explore("three overloads", |ch, cx| overloads(ch, cx, 3, 1, if deep { &menu } else { &most }, &args, if deep { &[0, 1, 2, 3, 4, 5] } else { &[0, 3] }));
    let pairs = if deep { &few[..] } else { &few[..5] };
    ctx.explore("two overloads of up to two", |ch, cx| overloads(ch, cx, 2, 2, pairs, if deep { &args } else { &args[..6] }, if deep { &[0, 3] } else { &[3] }));
    ctx.explore("conversions by name", |ch, cx| casts(ch, cx, deep));
    ctx.explore("operators", operators);
    ctx.explore("refusals", refusals);
    ctx.explore("refused declarations", declarations);
}

impl Src {
    fn ty_text(&self) -> String {
        match self.ty {
            Null | Void => String::new(),
            ref t => t.text(),
        }
    }
}
