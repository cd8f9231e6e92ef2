//! C12 the decompiled source takes the same path as the code
use redscript::ast::{Expr, Seq, SourceAst};

use crate::dec::*;
use crate::ops::MInstr;
use crate::util::{fail, Chooser, Ctx, Cx, Fail};

thread_local! {
    static POOL: std::cell::RefCell<redscript::bundle::ConstantPool> = std::cell::RefCell::new(flow_pool());
}

fn check(body: &[St], depth: usize, cx: &mut Cx) -> Result<(), Fail> {
    let code = codegen(body).finish();
    check_code(body, &code, depth, cx)?;
    let threaded = codegen_laid(body, true).finish();
    if threaded != code {
        check_code(body, &threaded, depth, cx)?;
    }
    Ok(())
}

fn check_code(body: &[St], code: &[(usize, MInstr)], depth: usize, cx: &mut Cx) -> Result<(), Fail> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        let tree = match decompile(&mut p, code)? {
            Ok(t) => t,
            Err(e) => return fail("error", format!("{body:?}: {e}")),
        };
        cx.step();
        if has_goto(&tree) { return fail("goto", format!("{body:?}: a goto is left: {:?} {}", tree.exprs, show(code))); }
        let outcomes = 3;
        match same_behaviour(code, &tree, &p, depth, outcomes) {
            Ok(n) => {
                cx.transitions += n;
                cx.traces += n;
                cx.state();
                Ok(())
            }
            Err(e) => fail(format!("{body:?}"), format!("{body:?}: {e}\n  code {}\n  tree {:?}", show(code), tree.exprs)),
        }
    })
}

fn has_goto(s: &Seq<SourceAst>) -> bool {
    s.exprs.iter().any(|e| match e {
        Expr::Goto(_, _) => true,
        Expr::Seq(s) => has_goto(s),
        Expr::If(_, a, b, _) => has_goto(a) || b.as_ref().is_some_and(has_goto),
        Expr::While(_, a, _) => has_goto(a),
        Expr::Switch(_, c, d, _) => c.iter().any(|c| has_goto(&c.body)) || d.as_ref().is_some_and(has_goto),
        _ => false,
    })
}

/// one construct whose bodies span n statements, so that the jumps get long
fn far(ch: &mut Chooser, sizes: &[usize], cx: &mut Cx) -> Result<(), Fail> {
    let n = *ch.of(sizes);
    let long = |i: u32| -> Vec<St> { (0..n).map(|k| St::Call((k as u32 + i) % CALLS)).collect() };
    let m = long(0);
    let mut closed = long(1);
    closed.push(St::Break);
    let mut body = match ch.pick(8) {
        0 => vec![St::If(0, m)],
        1 => vec![St::IfElse(0, m, vec![St::Call(1)])],
        2 => vec![St::IfElse(0, vec![St::Call(1)], m)],
        3 => vec![St::While(0, m)],
        4 => vec![St::While(0, vec![St::If(1, vec![St::Break]), St::IfElse(2, vec![St::Break], m)])],
        5 => vec![St::Switch(0, vec![closed, vec![St::Call(2), St::Break]], Some(vec![St::Call(3)]))],
        6 => vec![St::Switch(0, vec![vec![St::Call(2), St::Break], closed], Some(m))],
        _ => vec![St::While(0, vec![St::Switch(1, vec![vec![St::Call(2), St::Break], closed], None), St::If(2, vec![St::Break])])],
    };
    body.push(St::Call(4));
    cx.case(|| format!("{n} {body:?}"));
    check(&body, 4, cx)
}

fn programs(ch: &mut Chooser, budget: usize, shape: Shape, cx: &mut Cx) -> Result<(), Fail> {
    let mut g = Gen::new(budget, shape);
    let body = g.block(ch, false);
    cx.case(|| format!("{body:?}"));
    cx.sample(|| format!("{body:?}"));
    check(&body, 5, cx)
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let k = usize::from(th);
    let plain = Shape { switches: false, loops: false, dead: false, max_cases: 0, unmarked: false };
    let sw = Shape { switches: true, max_cases: 2, ..plain };
    ctx.explore("branches", |ch, cx| programs(ch, 6 + k, plain, cx));
    ctx.explore("loops", |ch, cx| programs(ch, 6 + k, Shape { loops: true, ..plain }, cx));
    ctx.explore("switches", |ch, cx| programs(ch, 5 + k, sw, cx));
    ctx.explore("switches in loops", |ch, cx| programs(ch, 4 + k, Shape { loops: true, ..sw }, cx));
    ctx.explore("three cases", |ch, cx| programs(ch, 4 + k, Shape { max_cases: 3, ..sw }, cx));
    ctx.explore("unreachable code", |ch, cx| programs(ch, 5 + k, Shape { dead: true, loops: true, ..plain }, cx));
    ctx.explore("unreachable code in switches", |ch, cx| programs(ch, 4 + k, Shape { dead: true, loops: true, ..sw }, cx));
    let mut sizes = vec![0, 1, 2, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17];
    if th {
        sizes.extend(18..300);
    }
    sizes.extend([255, 256, 1000, 1600, 1700]);
    ctx.explore("far", |ch, cx| far(ch, &sizes, cx));
    ctx.explore("no end in sight", |ch, cx| {
        let (key, body) = match ch.pick(2) {
            0 => ("empty default in a loop", vec![St::While(0, vec![St::Switch(1, vec![vec![St::Return]], Some(vec![]))])]),
            _ => (
                "break in the default only",
                vec![St::Switch(0, vec![vec![St::Return]], Some(vec![St::If(1, vec![St::If(2, vec![St::Break])]), St::Call(0)]))],
            ),
        };
        check(&body, 4, cx).map_err(|f| Fail { key: key.to_owned(), ..f })
    });
}
