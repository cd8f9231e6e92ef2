//! C13 decompiled expressions, C14 printed source
use redscript::bundle::PoolIndex;
use redscript::definition::Function;
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;

use crate::dec::{show, to_code, Asm};
use crate::ex::*;
use crate::util::{fail, Chooser, Ctx, Cx, Fail};

thread_local! {
    static X: std::cell::RefCell<ExPool> = std::cell::RefCell::new(ExPool::new());
}

/// picks a node of a depth: one operand is nested further, the others are plain
fn node(x: &ExPool, ch: &mut Chooser, depth: usize, reps: bool, leaf: usize, object: bool) -> Node {
    let all: Vec<usize> = (0..x.forms.len())
        .filter(|i| {
            let f = &x.forms[*i];
            f.value && (!reps || f.rep) && (depth == 0 || f.arity > 0) && !(object && x.is_number(*i))
        })
        .collect();
    let form = *ch.of(&all);
    fill(x, ch, form, depth, reps, leaf)
}

fn fill(x: &ExPool, ch: &mut Chooser, form: usize, depth: usize, reps: bool, leaf: usize) -> Node {
    let n = x.forms[form].arity;
    let mut kids: Vec<Node> = (0..n).map(|i| x.leaf(leaf + i)).collect();
    if n > 0 && depth > 0 {
        let at = ch.pick(n);
        // a leaf in that place is the case of depth - 1
        kids[at] = node(x, ch, depth - 1, reps, leaf + 1, at == 0 && x.takes_object(form));
    }
    Node { form, kids }
}

fn statement(x: &ExPool, ch: &mut Chooser, depth: usize, reps: bool) -> Node {
    let tops: Vec<usize> = (0..x.forms.len()).filter(|i| (!reps || x.forms[*i].rep) && (depth == 0 || x.forms[*i].arity > 0)).collect();
    let form = *ch.of(&tops);
    fill(x, ch, form, depth, reps, 0)
}

fn set_code(x: &mut ExPool, a: &Asm) -> String {
    let code = a.finish();
    x.function().code = to_code(&code);
    show(&code)
}

/// the statement, then a plain one: nothing of the second may be taken
fn program(x: &mut ExPool, nodes: &[Node], lead: u8) -> (W, String) {
    let mut a = Asm::default();
    let mut want = vec![];
    for n in nodes {
        x.emit(&mut a, n, lead);
        want.push(x.want(n));
    }
    a.op(0, &[]);
    let shown = set_code(x, &a);
    (w("seq", want), shown)
}

fn expressions(ch: &mut Chooser, depth: usize, reps: bool, leads: usize, cx: &mut Cx) -> Result<(), Fail> {
    X.with(|x| {
        let mut x = x.borrow_mut();
        let n = statement(&x, ch, depth, reps);
        let lead = ch.pick(leads) as u8;
        let returns = x.forms[n.form].name.starts_with("Return");
        let tail = x.leaf(0);
        let nodes = if returns { vec![n] } else { vec![n, tail] };
        let (want, code) = program(&mut x, &nodes, lead);
        let f = x.pool.function(PoolIndex::<Function>::new(x.fun)).unwrap();
        let got = match Decompiler::decompiled(f, x.definition(), &x.pool) {
            Ok(s) => w_seq(&s),
            Err(e) => return fail(code.clone(), format!("{code}: {e}")),
        };
        cx.step();
        cx.sample(|| format!("{code} -> {got:?}"));
        cx.state();
        cx.trace();
        if got != want {
            return fail(format!("{want:?}"), format!("{code}\n  is {want:?}\n  decompiled to {got:?}"));
        }
        Ok(())
    })
}

pub fn print(x: &ExPool, mode: OutputMode, depth: usize) -> Result<String, Fail> {
    let mut out = vec![];
    if let Err(e) = write_definition(&mut out, x.definition(), &x.pool, depth, mode) {
        return fail("error", e.to_string());
    }
    String::from_utf8(out).map_err(|e| Fail { key: "utf8".into(), detail: e.to_string() })
}

/// the body of a printed function
pub fn body(text: &str) -> Option<&str> {
    let start = text.find(" {\n")? + 3;
    let end = text.rfind('}')?;
    text.get(start..end)
}

fn check_text(x: &ExPool, want: &W, code: &str, verbose: bool, cx: &mut Cx) -> Result<(), Fail> {
    let text = print(x, OutputMode::Code { verbose }, 0)?;
    cx.step();
    let want = meaning(want, verbose);
    let Some(b) = body(&text) else {
        return fail("no body", text);
    };
    let mut p = Parser::new(b);
    let got = match p.seq() {
        Ok(t) if p.at_end() => parsed(&t),
        Ok(_) => return fail(format!("{want:?}"), format!("{code}\n  printed as {b:?}\n  has a rest that is no statement")),
        Err(e) => return fail(format!("{want:?}"), format!("{code}\n  printed as {b:?}\n  cannot be read: {e}")),
    };
    cx.sample(|| format!("{b:?} reads as {got:?}"));
    cx.state();
    cx.trace();
    if got != want {
        return fail(format!("{want:?}"), format!("{code}\n  is {want:?}\n  printed as {b:?}\n  which reads as {got:?}"));
    }
    Ok(())
}

fn texts(ch: &mut Chooser, depth: usize, reps: bool, cx: &mut Cx) -> Result<(), Fail> {
    X.with(|x| {
        let mut x = x.borrow_mut();
        let n = statement(&x, ch, depth, reps);
        let verbose = ch.flag();
        let returns = x.forms[n.form].name.starts_with("Return");
        let tail = x.leaf(0);
        let nodes = if returns { vec![n] } else { vec![n, tail] };
        let (want, code) = program(&mut x, &nodes, 0);
        check_text(&x, &want, &code, verbose, cx)
    })
}

/// Functions with locals: each is declared once, with its type, before its first use, and
/// the statements without the declarations are the statements of the code.
fn locals(ch: &mut Chooser, n: usize, stmts: usize, cx: &mut Cx) -> Result<(), Fail> {
    X.with(|x| {
        let mut x = x.borrow_mut();
        let names = ["x", "y", "z"];
        let tys = ["Int32", "ref<A>", "array<ref<A>>"];
        let order = [vec![0, 1, 2], vec![2, 1, 0], vec![1, 2, 0]];
        let ord = ch.of(&order).clone();
        let used: Vec<usize> = ord.into_iter().filter(|i| *i < n).collect();
        let ids: Vec<PoolIndex<redscript::definition::Local>> = used.iter().map(|i| PoolIndex::new(x.id(names[*i]))).collect();
        let find = |x: &ExPool, name: &str| x.forms.iter().position(|f| f.name.contains(name)).expect("harness: form");
        let (assign, meth, sf, ret) = (find(&x, "Assign("), find(&x, "ctx meth"), find(&x, "StructField"), find(&x, "Return"));
        let by_place = |x: &ExPool, name: &str| {
            let i = i64::from(x.id(name));
            x.forms
                .iter()
                .position(|f| matches!(&f.how, How::Plain(m) if (m.op == 24 || m.op == 25) && m.vals[0].int() == i))
        };
        let z = i64::from(x.id("z"));
        let place = |x: &ExPool, i: usize| -> Node {
            let form = if i == 2 {
                x.forms.iter().position(|f| f.name == "local z").expect("harness: z")
            } else {
                by_place(x, names[i]).expect("harness: place")
            };
            Node { form, kids: vec![] }
        };
        if !x.forms.iter().any(|f| f.name == "local z") {
            x.forms.push(Form {
                name: "local z".into(),
                how: How::Plain(crate::ops::MInstr::ints(24, &[z])),
                arity: 0,
                want: Box::new(|_| w("id z", vec![])),
                rep: false,
                value: false,
            });
        }
        let param = Node { form: by_place(&x, "p").expect("harness: p"), kids: vec![] };
        let count = ch.pick(stmts + 1);
        let mut nodes = vec![];
        for _ in 0..count {
            // value: a parameter or a local (perhaps inside a call)
            let v = ch.pick(1 + n);
            let value = if v == 0 { param.clone() } else { place(&x, v - 1) };
            let value = if v > 0 && ch.flag() { Node { form: meth, kids: vec![param.clone(), value] } } else { value };
            match ch.pick(4) {
                0 => nodes.push(Node { form: assign, kids: vec![place(&x, ch.pick(n)), value] }),
                1 => nodes.push(Node { form: assign, kids: vec![param.clone(), value] }),
                2 => nodes.push(Node { form: assign, kids: vec![Node { form: sf, kids: vec![place(&x, ch.pick(n))] }, value] }),
                _ => {
                    if v == 0 {
                        nodes.push(Node { form: ret, kids: vec![value] });
                        break;
                    }
                    nodes.push(value);
                }
            }
        }
        let (want, code) = program(&mut x, &nodes, 0);
        x.function().locals = ids;
        let f = x.pool.function(PoolIndex::<Function>::new(x.fun)).unwrap();
        let got = Decompiler::decompiled(f, x.definition(), &x.pool);
        x.function().locals = vec![];
        let got = match got {
            Ok(s) => w_seq(&s),
            Err(e) => return fail(code.clone(), format!("{code}: {e}")),
        };
        cx.step();
        cx.state();
        cx.trace();
        cx.sample(|| format!("{got:?}"));
        let bad = |why: &str| fail(format!("{want:?}"), format!("{why}: {code}\n  decompiled to {got:?}"));
        let mut declared: Vec<usize> = vec![];
        let mut rest = vec![];
        for st in &got.k {
            let uses = |t: &W| -> Vec<usize> {
                fn walk(t: &W, out: &mut Vec<String>) {
                    if let Some(n) = t.h.strip_prefix("id ") {
                        out.push(n.to_owned());
                    }
                    t.k.iter().for_each(|k| walk(k, out));
                }
                let mut o = vec![];
                walk(t, &mut o);
                o.iter().filter_map(|n| names.iter().position(|m| m == n)).collect()
            };
            for k in &st.k {
                if uses(k).iter().any(|u| !declared.contains(u)) {
                    return bad("a local is used before it is declared");
                }
            }
            if let Some(d) = st.h.strip_prefix("let ") {
                let (name, t) = d.split_once(' ').unwrap();
                let Some(i) = names.iter().position(|m| *m == name) else {
                    return bad("a declaration of no local");
                };
                if !used.contains(&i) || declared.contains(&i) {
                    return bad("a local is declared twice");
                }
                if t != tys[i] {
                    return bad("the type of a local is wrong");
                }
                declared.push(i);
                if let Some(v) = st.k.first() {
                    rest.push(w("assign", vec![w(format!("id {name}"), vec![]), v.clone()]));
                }
            } else {
                if uses(&w("x", vec![st.clone()])).iter().any(|u| !declared.contains(u)) {
                    return bad("a local is used before it is declared");
                }
                rest.push(st.clone());
            }
        }
        if declared.len() != used.len() {
            return bad("a local is not declared");
        }
        if w("seq", rest) != want {
            return bad("the statements differ");
        }
        Ok(())
    })
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.explore("single", |ch, cx| expressions(ch, 0, false, 4, cx));
    ctx.explore("pairs", |ch, cx| expressions(ch, 1, false, 4, cx));
    ctx.explore("triples", |ch, cx| expressions(ch, 2, !th, if th { 1 } else { 2 }, cx));
    for n in 1..4 {
        ctx.explore(&format!("{n} locals"), |ch, cx| locals(ch, n, if th { 4 } else { 3 }, cx));
    }
    if th {
        ctx.explore("quadruples", |ch, cx| expressions(ch, 3, true, 1, cx));
    }
}

thread_local! {
    static FLOW: std::cell::RefCell<redscript::bundle::ConstantPool> = std::cell::RefCell::new(crate::dec::flow_pool());
}

/// structured programs: the text reads as the decompiled tree, and is laid out by nesting
fn statements(ch: &mut Chooser, budget: usize, cx: &mut Cx) -> Result<(), Fail> {
    use crate::dec::{codegen, decompile, Gen, Shape, SELF};
    let mut g = Gen::new(budget, Shape { switches: true, loops: true, dead: false, max_cases: 2, unmarked: false });
    let prog = g.block(ch, false);
    let depth = ch.pick(2);
    let code = codegen(&prog).finish();
    FLOW.with(|p| {
        let mut p = p.borrow_mut();
        let tree = match decompile(&mut p, &code)? {
            Ok(t) => t,
            Err(e) => return fail("error", format!("{prog:?}: {e}")),
        };
        let def = p.definition(PoolIndex::<Function>::new(SELF)).unwrap();
        let mut out = vec![];
        if let Err(e) = write_definition(&mut out, def, &p, depth, OutputMode::Code { verbose: false }) {
            return fail("error", e.to_string());
        }
        let text = String::from_utf8_lossy(&out).into_owned();
        cx.step();
        let want = meaning(&w_seq(&tree), false);
        let Some(b) = body(&text) else { return fail("no body", text) };
        let mut ps = Parser::new(b);
        let got = match ps.seq() {
            Ok(t) if ps.at_end() => parsed(&t),
            Ok(_) => return fail(format!("{prog:?}"), format!("{b:?} has a rest that is no statement")),
            Err(e) => return fail(format!("{prog:?}"), format!("{b:?} cannot be read: {e}")),
        };
        cx.state();
        cx.trace();
        cx.sample(|| format!("{text:?}"));
        if got != want {
            return fail(format!("{prog:?}"), format!("{want:?}\n  printed as {b:?}\n  which reads as {got:?}"));
        }
        // one statement a line, indented by nesting
        let mut level = depth;
        let mut stack: Vec<bool> = vec![];
        let mut in_case = vec![];
        for line in text.lines().skip(1) {
            let t = line.trim_start_matches(' ');
            let indent = line.len() - t.len();
            if t.starts_with('}') {
                if in_case.pop() == Some(true) {
                    level -= 1;
                }
                level -= 1;
                stack.pop();
            }
            let label = t.starts_with("case ") || t.starts_with("default:");
            if label && in_case.last() == Some(&true) {
                level -= 1;
                *in_case.last_mut().unwrap() = false;
            }
            if indent != 2 * level {
                return fail(format!("layout {prog:?}"), format!("line {line:?} has another indentation than {}: {text:?}", 2 * level));
            }
            if label {
                level += 1;
                if let Some(l) = in_case.last_mut() {
                    *l = true;
                }
            }
            if t.ends_with('{') {
                level += 1;
                stack.push(true);
                in_case.push(false);
            }
        }
        Ok(())
    })
}

fn value_text(x: &mut ExPool, i: crate::ops::MInstr, want: W, cx: &mut Cx) -> Result<(), Fail> {
    let mut a = Asm::default();
    a.raw(i);
    let code = set_code(x, &a);
    let want = w("seq", vec![want]);
    check_text(x, &want, &code, false, cx)
}

fn strings(ch: &mut Chooser, chars: &[char], pairs: &[char], cx: &mut Cx) -> Result<(), Fail> {
    let mut s = String::new();
    if ch.flag() {
        s.push(*ch.of(chars));
        if ch.flag() {
            s.insert(0, 'a');
            s.push('b');
        }
    } else {
        for _ in 0..2 + ch.pick(2) {
            s.push(*ch.of(pairs));
        }
    }
    let kind = ch.pick(4);
    X.with(|x| {
        let mut x = x.borrow_mut();
        let r: redscript::Ref<str> = redscript::Ref::from(s.as_str());
        let (op, h, idx) = match kind {
            0 => (14, "name", u32::from(x.pool.names.add(r))),
            1 => (16, "str", u32::from(x.pool.strings.add(r))),
            2 => (17, "tdb", u32::from(x.pool.tweakdb_ids.add(r))),
            _ => (18, "res", u32::from(x.pool.resources.add(r))),
        };
        value_text(&mut x, crate::ops::MInstr::ints(op, &[i64::from(idx)]), w(format!("{h} {s:?}"), vec![]), cx)
    })
}

/// every exponent with boundary fractions, both signs, both widths
fn floats(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let neg = ch.flag();
    let frac = *ch.of(&[0u64, 1, 2, 3, 0x5555_5555_5555_5555, 0x2aaa_aaaa_aaaa_aaaa, 1 << 63, 3 << 62, u64::MAX - 1, u64::MAX]);
    X.with(|x| {
        let mut x = x.borrow_mut();
        if ch.flag() {
            let e = ch.pick(255) as u32;
            let m = (frac >> 41) as u32 | (frac as u32 & 3);
            let f = f32::from_bits(u32::from(neg) << 31 | e << 23 | (m & 0x7f_ffff));
            let i = crate::ops::MInstr::ints(12, &[i64::from(f.to_bits())]);
            value_text(&mut x, i, w(format!("f32 {:08x}", f.to_bits()), vec![]), cx)
        } else {
            let e = ch.pick(2047) as u64;
            let m = (frac >> 12) | (frac & 3);
            let f = f64::from_bits(u64::from(neg) << 63 | e << 52 | (m & 0xf_ffff_ffff_ffff));
            let i = crate::ops::MInstr::ints(13, &[f.to_bits() as i64]);
            value_text(&mut x, i, w(format!("f64 {:016x}", f.to_bits()), vec![]), cx)
        }
    })
}

/// numbers with few digits, as people write them
fn decimals(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let n = ch.pick(2000) as i32;
    let scale = ch.pick(5) as i32;
    let neg = ch.flag();
    X.with(|x| {
        let mut x = x.borrow_mut();
        let text = format!("{}{n}e-{scale}", if neg { "-" } else { "" });
        if ch.flag() {
            let f: f32 = text.parse().unwrap();
            let i = crate::ops::MInstr::ints(12, &[i64::from(f.to_bits())]);
            value_text(&mut x, i, w(format!("f32 {:08x}", f.to_bits()), vec![]), cx)
        } else {
            let f: f64 = text.parse().unwrap();
            let i = crate::ops::MInstr::ints(13, &[f.to_bits() as i64]);
            value_text(&mut x, i, w(format!("f64 {:016x}", f.to_bits()), vec![]), cx)
        }
    })
}

fn integers(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let (op, kind) = *ch.of(&[(4u8, "i32"), (5, "i32"), (6, "i32"), (7, "i64"), (8, "u32"), (9, "u32"), (10, "u32"), (11, "u64")]);
    let bits = [8u32, 16, 32, 64, 8, 16, 32, 64][usize::from(op - 4)];
    let signed = op < 8;
    let v: i128 = if bits == 8 {
        ch.pick(256) as i128 - if signed { 128 } else { 0 }
    } else {
        let at = ch.pick(bits as usize + 1) as u32;
        let d = ch.pick(7) as i128 - 3;
        let base = (1i128 << at) + d;
        let base = if signed && ch.flag() { -base } else { base };
        let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
        base.clamp(lo, hi)
    };
    X.with(|x| {
        let mut x = x.borrow_mut();
        value_text(&mut x, crate::ops::MInstr::ints(op, &[v as i64]), w(format!("{kind} {v}"), vec![]), cx)
    })
}

/// locals of every bounded type
fn declared_types(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let n = ch.pick(5);
    let mut repr = String::new();
    let mut pretty = String::new();
    for _ in 0..n {
        let k = *ch.of(&["ref", "wref", "array", "script_ref"]);
        repr += &format!("{k}:");
        pretty += &format!("{k}<");
    }
    let base = *ch.of(&["Int32", "A", "gameObject_with_a_very_long_name_that_needs_the_heap"]);
    repr += base;
    pretty += base;
    pretty += &">".repeat(n);
    X.with(|x| {
        let mut x = x.borrow_mut();
        let name = x.pool.names.add(redscript::Ref::from(repr.as_str()));
        let t = x.pool.add_definition::<redscript::definition::Type>(redscript::definition::Definition::type_(
            name,
            redscript::definition::Type::Prim,
        ));
        let nx = x.pool.names.add(redscript::Ref::from("x"));
        let parent = PoolIndex::new(x.fun);
        let data = redscript::definition::Local { type_: t, flags: redscript::definition::LocalFlags::new() };
        let l = x.pool.add_definition::<redscript::definition::Local>(redscript::definition::Definition::local(nx, parent, data));
        let assigned = ch.flag();
        let lx = i64::from(u32::from(l));
        let px = i64::from(x.id("p"));
        let mut a = Asm::default();
        if assigned {
            a.op(22, &[]);
        } else {
            a.op(73, &[1]);
        }
        a.op(24, &[lx]);
        if assigned {
            a.op(25, &[px]);
        }
        let code = set_code(&mut x, &a);
        x.function().locals = vec![l];
        let want = if assigned {
            vec![w(format!("let x {pretty}"), vec![w("id p", vec![])])]
        } else {
            vec![w(format!("let x {pretty}"), vec![]), w("call ArraySort <>", vec![w("id x", vec![])])]
        };
        let r = check_text(&x, &w("seq", want), &code, false, cx);
        x.function().locals = vec![];
        r
    })
}

pub fn run14(ctx: &Ctx) {
    let k = usize::from(ctx.thorough());
    ctx.explore("statements", |ch, cx| statements(ch, 4 + k, cx));
    let chars: Vec<char> = (0..0x3000u32).chain((0x1f600..0x1f650).chain(0xfff0..0x10010).chain(0x10fff0..0x110000)).filter_map(char::from_u32).collect();
    let pairs = ['\\', '"', '\'', '(', ')', 'u', '{', '}', 'n', '\n', '\u{1}', '4', 'é'];
    ctx.explore("strings", |ch, cx| strings(ch, &chars, &pairs, cx));
    ctx.explore("floats", floats);
    ctx.explore("decimals", decimals);
    ctx.explore("integers", integers);
    ctx.explore("declared types", declared_types);
    let th = ctx.thorough();
    ctx.explore("single", |ch, cx| texts(ch, 0, false, cx));
    ctx.explore("pairs", |ch, cx| texts(ch, 1, false, cx));
    ctx.explore("triples", |ch, cx| texts(ch, 2, !th, cx));
    if th {
        ctx.explore("quadruples", |ch, cx| texts(ch, 3, true, cx));
    }
}
