//! C03 every instruction is written and read exactly
//! C04 sizes, positions and navigation of code agree
//! C05 jumps land where their labels are
use redscript::bundle::PoolIndex;
use redscript::bytecode::{Code, Instr, Label, Location, Offset};
use redscript::decode::Decode;
use redscript::encode::Encode;

use crate::ensure;
use crate::gen::{BOUNDARY, LARGE};
use crate::ops::{self, show_code, Kind, MInstr, Val, OPS};
use crate::util::{fail, hex, Chooser, Ctx, Cx, Fail};

fn instr_exact(m: &MInstr) -> Result<(), Fail> {
    let mut want = vec![];
    m.file_bytes(&mut want);
    let i = ops::build(m);
    let mut got = vec![];
    i.encode(&mut got).map_err(|e| Fail::from(format!("{} encode: {e}", m.show())))?;
    if got != want {
        return fail(format!("encode {}", m.show()), format!("{} written as {}, expected {}", m.show(), hex(&got), hex(&want)));
    }
    // something follows it: the decoder must stop at the right place
    want.extend_from_slice(&[0xA5, 0x5A]);
    let mut rd = &want[..];
    let back = Instr::<Offset>::decode(&mut rd).map_err(|e| Fail::from(format!("{} decode: {e}", m.show())))?;
    if rd.len() != 2 {
        return fail(
            format!("decode {}", m.show()),
            format!("{} read {} bytes of {}", m.show(), want.len() - rd.len(), want.len() - 2),
        );
    }
    let low = ops::lower(&back);
    if low != *m {
        return fail(format!("decode {}", m.show()), format!("{} read back as {}", m.show(), low.show()));
    }
    if usize::from(i.size()) != m.vm_size() {
        return fail(format!("size {}", m.show()), format!("{} has size {}, expected {}", m.show(), i.size(), m.vm_size()));
    }
    Ok(())
}

fn code_exact(code: &[MInstr], cx: &mut Cx) -> Result<(), Fail> {
    let want = ops::code_bytes(code);
    let c = Code::new(code.iter().map(ops::build).collect::<Vec<_>>());
    let mut got = vec![];
    c.encode(&mut got).map_err(|e| Fail::from(e.to_string()))?;
    cx.step();
    if got != want {
        return fail(
            format!("encode {}", brief(code)),
            format!("{} written as {}, expected {}", brief(code), hex(&got[..got.len().min(200)]), hex(&want[..want.len().min(200)])),
        );
    }
    let mut rd = want.clone();
    rd.push(0xA5);
    let mut rd = &rd[..];
    let back = Code::<Offset>::decode(&mut rd).map_err(|e| Fail::from(format!("{}: {e}", brief(code))))?;
    cx.step();
    let low: Vec<MInstr> = back.as_ref().iter().map(ops::lower).collect();
    if low != code || rd.len() != 1 {
        return fail(format!("decode {}", brief(code)), format!("{} read back as {} ({} bytes left)", brief(code), brief(&low), rd.len()));
    }
    ensure!(back.len() == code.len() && back.is_empty() == code.is_empty(), "len of {}", brief(code));
    cx.state();
    cx.trace();
    Ok(())
}

fn brief(code: &[MInstr]) -> String {
    if code.len() > 12 {
        format!("{} ... ({} instructions)", show_code(&code[..6]), code.len())
    } else {
        show_code(code)
    }
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("the instruction table of the harness states the encoding; the label marker (23) has no operand and no size");
    ctx.explore("every instruction, boundary operands", |ch, cx| {
        let spec = ch.of(OPS);
        let mut vals = vec![];
        for k in spec.kinds {
            let d = ops::domain(*k);
            vals.push(ch.of(&d).clone());
        }
        let m = MInstr::new(spec.op, vals);
        cx.case(|| m.show());
        cx.sample(|| m.show());
        cx.state();
        cx.step();
        cx.trace();
        instr_exact(&m)
    });
    ctx.explore("every 16-bit operand value", |ch, cx| {
        let slots: Vec<(u8, usize)> = OPS
            .iter()
            .flat_map(|s| s.kinds.iter().enumerate().map(move |(i, k)| (s.op, i, *k)))
            .filter(|(_, _, k)| matches!(k, Kind::Off | Kind::I16 | Kind::U16))
            .map(|(o, i, _)| (o, i))
            .collect();
        let (op, slot) = *ch.of(&slots);
        let spec = ops::spec(op);
        let hi = ch.pick(256) as i64;
        for lo in 0..256i64 {
            let raw = (hi << 8 | lo) as u16;
            let vals: Vec<Val> = spec
                .kinds
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    if i == slot {
                        Val::Int(if *k == Kind::U16 { i64::from(raw) } else { i64::from(raw as i16) })
                    } else {
                        ops::small_domain(*k)[0].clone()
                    }
                })
                .collect();
            let m = MInstr::new(op, vals);
            cx.case(|| m.show());
            cx.state();
            cx.step();
            cx.trace();
            instr_exact(&m)?;
        }
        Ok(())
    });
    ctx.explore("every byte of every wider operand", |ch, cx| {
        let slots: Vec<(u8, usize, Kind)> = OPS
            .iter()
            .flat_map(|s| s.kinds.iter().enumerate().map(move |(i, k)| (s.op, i, *k)))
            .filter(|(_, _, k)| !matches!(k, Kind::Off | Kind::I16 | Kind::U16 | Kind::I8 | Kind::U8 | Kind::Brk | Kind::Prof))
            .collect();
        let (op, slot, kind) = *ch.of(&slots);
        let spec = ops::spec(op);
        let width = if matches!(kind, Kind::I64 | Kind::U64 | Kind::F64) { 8 } else { 4 };
        let at = ch.pick(width);
        let rest = *ch.of(&[0u64, u64::MAX, 0x0102_0304_0506_0708]);
        for b in 0..256u64 {
            let v = (rest & !(0xff << (8 * at))) | b << (8 * at);
            let v = match kind {
                Kind::I32 => i64::from(v as i32),
                Kind::U32 | Kind::F32 | Kind::Idx | Kind::StrIdx => i64::from(v as u32),
                _ => v as i64,
            };
            let vals: Vec<Val> = spec
                .kinds
                .iter()
                .enumerate()
                .map(|(i, k)| if i == slot { Val::Int(v) } else { ops::small_domain(*k)[0].clone() })
                .collect();
            let m = MInstr::new(op, vals);
            cx.case(|| m.show());
            cx.state();
            cx.step();
            cx.trace();
            instr_exact(&m)?;
        }
        Ok(())
    });
    let mut reps = ops::representatives();
    reps.push(MInstr::new(51, vec![ops::prof("", 0)]));
    reps.push(MInstr { op: 23, vals: vec![] });
    ctx.explore("instruction sequences", |ch, cx| {
        let n = 1 + ch.pick(if th { 3 } else { 2 });
        let code: Vec<MInstr> = (0..n).map(|_| ch.of(&reps).clone()).collect();
        if code.last().is_some_and(|i| i.op == 23) {
            // a marker has no size, so the length of the code cannot tell that it is there
            return Ok(());
        }
        cx.case(|| show_code(&code));
        cx.sample(|| show_code(&code));
        code_exact(&code, cx)
    });
    ctx.explore("code lengths", |ch, cx| {
        let sizes: Vec<usize> = BOUNDARY.iter().chain(LARGE).copied().collect();
        let n = *ch.of(&sizes);
        let i = ch.of(&[MInstr::ints(0, &[]), MInstr::ints(4, &[7]), MInstr::ints(24, &[9]), MInstr::ints(31, &[3])]).clone();
        code_exact(&vec![i; n], cx)
    });
    ctx.explore("unknown opcodes", |ch, cx| {
        let op = 104 + ch.pick(152) as u8;
        let bytes = [op, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        cx.state();
        cx.trace();
        ensure!(Instr::<Offset>::decode(&mut &bytes[..]).is_err(), "opcode {op} was accepted");
        Ok(())
    });
    ctx.explore("instructions cut short", |ch, cx| {
        let m = ch.of(&reps).clone();
        let mut b = vec![];
        m.file_bytes(&mut b);
        for n in 0..b.len() {
            cx.state();
            cx.trace();
            ensure!(Instr::<Offset>::decode(&mut &b[..n]).is_err(), "{} cut to {n} bytes was accepted", m.show());
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C04

fn navigation(code: &[MInstr], cx: &mut Cx, all: bool) -> Result<(), Fail> {
    let c = Code::new(code.iter().map(ops::build).collect::<Vec<_>>());
    let mut pos = vec![0usize];
    for m in code {
        pos.push(pos.last().unwrap() + m.vm_size());
    }
    let n = code.len();
    let total = pos[n];
    let it: Vec<(Location, Instr<Offset>)> = c.iter().collect();
    ensure!(it.len() == n, "iter gave {} of {n} instructions of {}", it.len(), brief(code));
    for (k, (l, i)) in it.iter().enumerate() {
        ensure!(usize::from(l.value) == pos[k], "instruction {k} of {} listed at {l}, is at {}", brief(code), pos[k]);
        ensure!(ops::lower(i) == code[k], "instruction {k} of {} listed as {i:?}", brief(code));
        ensure!(usize::from(i.size()) == code[k].vm_size(), "size of {}", code[k].show());
    }
    // walking
    let mut cur = c.cursor();
    for k in 0..=n {
        ensure!(usize::from(cur.pos().value) == pos[k], "after {k} steps of {} at {}, expected {}", brief(code), cur.pos(), pos[k]);
        let peek = cur.peek();
        let pop = cur.pop();
        if k < n {
            let p = peek.map(|i| ops::lower(&i));
            ensure!(p.as_ref() == Some(&code[k]), "peek {k} of {}", brief(code));
            let q = pop.ok().map(|i| ops::lower(&i));
            ensure!(q.as_ref() == Some(&code[k]), "pop {k} of {}", brief(code));
        } else {
            ensure!(peek.is_none() && pop.is_err(), "an instruction after the end of {}", brief(code));
            ensure!(usize::from(cur.pos().value) == pos[n], "popping at the end of {} moved", brief(code));
        }
    }
    cx.step();
    // seeking to every position
    let step = if all || total < 400 { 1 } else { 7 };
    let mut targets: Vec<usize> = (0..total + 4).step_by(step).collect();
    targets.extend(&pos);
    targets.extend([65535, 65534, 32768, 32767]);
    if n > 200 {
        // the whole list of positions would be quadratic: the ends, the powers of two and a sweep
        let keep = |i: usize| i < 6 || i + 6 >= n || (i + 1).count_ones() == 1 || i.count_ones() == 1 || (i + 2) % 97 == 0;
        targets = pos.iter().enumerate().filter(|(i, _)| keep(*i)).flat_map(|(_, p)| [*p, p + 1]).collect();
        targets.extend([65535, 65534, 32768, 32767]);
    }
    let index: std::collections::HashMap<usize, usize> = pos.iter().enumerate().map(|(i, p)| (*p, i)).collect();
    let start = n / 2;
    let home = Location::new(pos[start] as u16);
    let mut cur = c.cursor();
    for t in targets {
        if t > 65535 {
            continue;
        }
        cur.seek_abs(home).map_err(|e| Fail::from(format!("{}: {e}", brief(code))))?;
        let r = cur.seek_abs(Location::new(t as u16));
        match index.get(&t) {
            Some(&k) => {
                ensure!(r.is_ok(), "cannot go to {t} in {}", brief(code));
                ensure!(usize::from(cur.pos().value) == t, "went to {} instead of {t} in {}", cur.pos(), brief(code));
                let p = cur.peek().map(|i| ops::lower(&i));
                ensure!(p.as_ref() == code.get(k), "at {t} of {} found {p:?}", brief(code));
                // relative
                let d = t as i64 - pos[start] as i64;
                if let Ok(d) = i16::try_from(d) {
                    cur.seek_abs(home).map_err(|e| Fail::from(e.to_string()))?;
                    ensure!(cur.seek_rel(Offset::new(d)).is_ok(), "cannot go by {d} in {}", brief(code));
                    ensure!(usize::from(cur.pos().value) == t, "going by {d} in {}", brief(code));
                }
            }
            None => {
                ensure!(r.is_err(), "{t} in {} is not the start of an instruction", brief(code));
                ensure!(usize::from(cur.pos().value) == pos[start], "a refused seek moved, in {}", brief(code));
            }
        }
        cx.step();
    }
    // ranges
    let ends: Vec<usize> = if n <= 6 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
    let cur = c.cursor();
    for &a in &ends {
        for &b in ends.iter().filter(|b| **b >= a) {
            let r = cur.range(Location::new(pos[a] as u16), Location::new(pos[b] as u16)).map_err(|e| Fail::from(e.to_string()))?;
            let got: Vec<(usize, MInstr)> = r.map(|(l, i)| (usize::from(l.value), ops::lower(&i))).collect();
            let want: Vec<(usize, MInstr)> = (a..b).map(|k| (pos[k], code[k].clone())).collect();
            ensure!(got == want, "range {}..{} of {}", pos[a], pos[b], brief(code));
            cx.step();
        }
    }
    cx.state();
    cx.trace();
    Ok(())
}

/// histories of cursor operations against an index into the instruction list
fn cursor_history(code: &[MInstr], ch: &mut Chooser, depth: usize, cx: &mut Cx) -> Result<(), Fail> {
    let c = Code::new(code.iter().map(ops::build).collect::<Vec<_>>());
    let mut pos = vec![0usize];
    for m in code {
        pos.push(pos.last().unwrap() + m.vm_size());
    }
    let mut cur = c.cursor();
    let mut at = 0usize;
    let mut log = String::new();
    for _ in 0..depth {
        let n = code.len();
        match ch.pick(4) {
            0 => {
                log.push_str(" pop");
                let r = cur.pop().ok().map(|i| ops::lower(&i));
                ensure!(r.as_ref() == code.get(at), "{}: after{log}: {r:?}", show_code(code));
                if at < n {
                    at += 1;
                }
            }
            1 => {
                let t = *ch.of(&pos);
                log.push_str(&format!(" goto {t}"));
                ensure!(cur.seek_abs(Location::new(t as u16)).is_ok(), "{}:{log}", show_code(code));
                at = pos.iter().position(|p| *p == t).unwrap();
            }
            2 => {
                let t = *ch.of(&pos);
                let d = t as i64 - pos[at] as i64;
                log.push_str(&format!(" by {d}"));
                ensure!(cur.seek_rel(Offset::new(d as i16)).is_ok(), "{}:{log}", show_code(code));
                at = pos.iter().position(|p| *p == t).unwrap();
            }
            _ => {
                let t = pos[n] + 1;
                log.push_str(&format!(" goto {t} (outside)"));
                ensure!(cur.seek_abs(Location::new(t as u16)).is_err(), "{}:{log}", show_code(code));
            }
        }
        cx.step();
        ensure!(usize::from(cur.pos().value) == pos[at], "{}:{log}: at {}, expected {}", show_code(code), cur.pos(), pos[at]);
        let p = cur.peek().map(|i| ops::lower(&i));
        ensure!(p.as_ref() == code.get(at), "{}:{log}: peek {p:?}", show_code(code));
    }
    cx.state();
    cx.trace();
    Ok(())
}

fn size_classes() -> Vec<MInstr> {
    let mut out: Vec<MInstr> = vec![];
    for m in ops::representatives() {
        if !out.iter().any(|o| o.vm_size() == m.vm_size()) {
            out.push(m);
        }
    }
    for k in [1usize, 40, 255, 256] {
        out.push(MInstr::new(51, vec![ops::prof(&crate::gen::text(k), 1)]));
    }
    out
}

pub fn run4(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("code in memory holds no label markers; code is at most 65535 units long; ranges are asked with start <= end");
    let reps = ops::representatives();
    ctx.explore("pairs of instructions", |ch, cx| {
        let n = ch.pick(3);
        let code: Vec<MInstr> = (0..n).map(|_| ch.of(&reps).clone()).collect();
        cx.case(|| show_code(&code));
        cx.sample(|| show_code(&code));
        navigation(&code, cx, true)
    });
    let sc = size_classes();
    ctx.explore("sequences of size classes", |ch, cx| {
        let n = if th { 4 } else { 3 };
        let code: Vec<MInstr> = (0..n).map(|_| ch.of(&sc).clone()).collect();
        cx.case(|| show_code(&code));
        cx.sample(|| show_code(&code));
        navigation(&code, cx, false)
    });
    ctx.explore("profiling records of every length", |ch, cx| {
        let n = *ch.of(&(0..=300).chain([511, 512, 1000, 4096, 32767, 32768, 65000]).collect::<Vec<usize>>());
        let code = vec![MInstr::ints(0, &[]), MInstr::new(51, vec![ops::prof(&crate::gen::text(n), 1)]), MInstr::ints(24, &[1])];
        navigation(&code, cx, true)
    });
    let shorts = crate::gen::short_strings();
    ctx.explore("profiling records of every short name", |ch, cx| {
        let name = ch.of(&shorts).clone();
        let code = vec![MInstr::new(51, vec![ops::prof(&name, 1)]), MInstr::ints(24, &[1]), MInstr::ints(0, &[])];
        cx.case(|| show_code(&code));
        navigation(&code, cx, true)
    });
    ctx.explore("long code", |ch, cx| {
        let (op, sz) = *ch.of(&[(0u8, 1usize), (4, 2), (24, 9), (36, 15)]);
        let vals: Vec<i64> = ops::spec(op).kinds.iter().map(|_| 3).collect();
        let max = 65535 / sz;
        let n = *ch.of(&[10usize, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 32769, 40000, 65534, 65535]);
        if n > max {
            return Ok(());
        }
        navigation(&vec![MInstr::ints(op, &vals); n], cx, false)
    });
    ctx.explore("longest code", |ch, cx| {
        let (op, sz) = *ch.of(&[(0u8, 1usize), (4, 2), (24, 9), (36, 15)]);
        let vals: Vec<i64> = ops::spec(op).kinds.iter().map(|_| 3).collect();
        navigation(&vec![MInstr::ints(op, &vals); 65535 / sz], cx, false)
    });
    ctx.explore("cursor histories", |ch, cx| {
        let codes: [Vec<MInstr>; 4] = [
            vec![],
            vec![MInstr::ints(0, &[])],
            vec![MInstr::ints(24, &[5]), MInstr::ints(0, &[]), MInstr::ints(4, &[5])],
            vec![MInstr::ints(31, &[3]), MInstr::new(51, vec![ops::prof("abc", 1)]), MInstr::ints(39, &[])],
        ];
        let k = ch.pick(4);
        cx.sample(|| show_code(&codes[k]));
        cursor_history(&codes[k], ch, if th { 6 } else { 4 }, cx)
    });
}

// ---------------------------------------------------------------- C05

type Lab = Instr<Label>;

/// every instruction with label operands, by the number of labels it takes
fn label_instr(op: u8, l: &[usize]) -> Lab {
    let at = |i: usize| Label { index: l[i] };
    match op {
        28 => Instr::Switch(PoolIndex::new(7), at(0)),
        29 => Instr::SwitchLabel(at(0), at(1)),
        31 => Instr::Jump(at(0)),
        32 => Instr::JumpIfFalse(at(0)),
        33 => Instr::Skip(at(0)),
        34 => Instr::Conditional(at(0), at(1)),
        36 => Instr::InvokeStatic(at(0), 5, PoolIndex::new(6), 7),
        37 => Instr::InvokeVirtual(at(0), 5, PoolIndex::new(6), 7),
        41 => Instr::Context(at(0)),
        _ => panic!("harness"),
    }
}

fn expect_label(op: u8, d: &[i64]) -> MInstr {
    match op {
        28 => MInstr::ints(28, &[7, d[0]]),
        29 | 34 => MInstr::ints(op, &[d[0], d[1]]),
        36 | 37 => MInstr::ints(op, &[d[0], 5, 6, 7]),
        _ => MInstr::ints(op, &[d[0]]),
    }
}

/// the library's own instruction without labels, through its decoder
fn plain(m: &MInstr) -> Lab {
    macro_rules! go {
        ($($op:literal $v:ident $(($($a:ident),+))?;)*) => {
            match ops::build(m) {
                $(Instr::$v $(($($a),+))? => Instr::$v $(($($a),+))?,)*
                other => panic!("harness: {other:?} has labels"),
            }
        };
    }
    go! {
        0 Nop; 1 Null; 2 I32One; 3 I32Zero; 4 I8Const(a); 5 I16Const(a); 6 I32Const(a); 7 I64Const(a); 8 U8Const(a);
        9 U16Const(a); 10 U32Const(a); 11 U64Const(a); 12 F32Const(a); 13 F64Const(a); 14 NameConst(a);
        15 EnumConst(a, b); 16 StringConst(a); 17 TweakDbIdConst(a); 18 ResourceConst(a); 19 TrueConst; 20 FalseConst;
        21 Breakpoint(a); 22 Assign; 24 Local(a); 25 Param(a); 26 ObjectField(a); 27 ExternalVar; 30 SwitchDefault;
        35 Construct(a, b); 38 ParamEnd; 39 Return; 40 StructField(a); 42 Equals(a); 43 RefStringEqualsString(a);
        44 StringEqualsRefString(a); 45 NotEquals(a); 46 RefStringNotEqualsString(a); 47 StringNotEqualsRefString(a);
        48 New(a); 49 Delete; 50 This; 51 StartProfiling(a); 52 ArrayClear(a); 53 ArraySize(a); 54 ArrayResize(a);
        55 ArrayFindFirst(a); 56 ArrayFindFirstFast(a); 57 ArrayFindLast(a); 58 ArrayFindLastFast(a); 59 ArrayContains(a);
        60 ArrayContainsFast(a); 61 ArrayCount(a); 62 ArrayCountFast(a); 63 ArrayPush(a); 64 ArrayPop(a); 65 ArrayInsert(a);
        66 ArrayRemove(a); 67 ArrayRemoveFast(a); 68 ArrayGrow(a); 69 ArrayErase(a); 70 ArrayEraseFast(a); 71 ArrayLast(a);
        72 ArrayElement(a); 73 ArraySort(a); 74 ArraySortByPredicate(a); 75 StaticArraySize(a); 76 StaticArrayFindFirst(a);
        77 StaticArrayFindFirstFast(a); 78 StaticArrayFindLast(a); 79 StaticArrayFindLastFast(a); 80 StaticArrayContains(a);
        81 StaticArrayContainsFast(a); 82 StaticArrayCount(a); 83 StaticArrayCountFast(a); 84 StaticArrayLast(a);
        85 StaticArrayElement(a); 86 RefToBool; 87 WeakRefToBool; 88 EnumToI32(a, b); 89 I32ToEnum(a, b); 90 DynamicCast(a, b);
        91 ToString(a); 92 ToVariant(a); 93 FromVariant(a); 94 VariantIsDefined; 95 VariantIsRef; 96 VariantIsArray;
        97 VariantTypeName; 98 VariantToString; 99 WeakRefToRef; 100 RefToWeakRef; 101 WeakRefNull; 102 AsRef(a); 103 Deref(a);
    }
}

const JUMPS: &[u8] = &[28, 29, 31, 32, 33, 34, 36, 37, 41];

pub fn run5(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("the distance between a jump and its target fits in 16 bits, signed");
    // every pair of positions whose distance fits
    ctx.explore("distances between all positions", |ch, cx| {
        let base = ch.pick(65536) as u16;
        let b = Location::new(base);
        let stride = 1usize;
        let mut n = 0u64;
        let lo = usize::from(base).saturating_sub(32768);
        let hi = (usize::from(base) + 32767).min(65535);
        let start = lo + (usize::from(base) % stride);
        for t in (start..=hi).step_by(stride).chain([lo, hi, usize::from(base)]) {
            let l = Location::new(t as u16);
            let o = l.relative(b);
            let d = t as i64 - i64::from(base);
            if i64::from(o.value) != d || o.absolute(b) != l {
                return fail(
                    "distance",
                    format!("from {base} to {t}: offset {} leads to {}", o.value, o.absolute(b)),
                );
            }
            n += 1;
        }
        cx.states += n;
        cx.transitions += n;
        cx.trace();
        Ok(())
    });
    ctx.explore("every offset from every boundary position", |ch, cx| {
        let bases = [0u16, 1, 2, 3, 100, 255, 256, 257, 32766, 32767, 32768, 32769, 40000, 65533, 65534, 65535];
        let base = Location::new(*ch.of(&bases));
        let hi = ch.pick(256) as u16;
        for lo in 0..256u16 {
            let o = (hi << 8 | lo) as i16;
            let t = i64::from(base.value) + i64::from(o);
            if (0..=65535).contains(&t) {
                let a = Offset::new(o).absolute(base);
                ensure!(i64::from(a.value) == t, "offset {o} at {base} leads to {a}");
                ensure!(a.relative(base).value == o, "offset {o} at {base} and back");
                cx.state();
                cx.step();
            }
        }
        cx.trace();
        Ok(())
    });
    // programs: instructions with labels anywhere, resolved, must land on the label
    let fill: Vec<MInstr> = vec![MInstr::ints(0, &[]), MInstr::ints(24, &[3]), MInstr::new(51, vec![ops::prof("abcd", 1)])];
    ctx.explore("labelled programs", |ch, cx| {
        let n = if th { 4 } else { 3 };
        let mut prog: Vec<(u8, Option<MInstr>, Vec<usize>)> = vec![];
        for _ in 0..n {
            let k = ch.pick(JUMPS.len() + fill.len());
            if k < JUMPS.len() {
                let op = JUMPS[k];
                let l0 = ch.pick(n + 1);
                let l = if op == 29 || op == 34 { vec![l0, ch.pick(n + 1)] } else { vec![l0] };
                prog.push((op, None, l));
            } else {
                prog.push((0, Some(fill[k - JUMPS.len()].clone()), vec![]));
            }
        }
        // labels: label i marks instruction i (label n the end)
        let instrs: Vec<Lab> = prog
            .iter()
            .map(|(op, p, l)| match p {
                Some(m) => plain(m),
                None => label_instr(*op, l),
            })
            .collect();
        let mut at = vec![0u16];
        for i in &instrs {
            at.push(at.last().unwrap() + i.size());
        }
        let targets: Vec<Location> = at.iter().map(|a| Location::new(*a)).collect();
        cx.sample(|| format!("{instrs:?}"));
        let res: Vec<Instr<Offset>> = instrs.into_iter().zip(&targets).map(|(i, l)| i.resolve_labels(*l, &targets)).collect();
        cx.step();
        for (k, i) in res.iter().enumerate() {
            let want = match &prog[k] {
                (_, Some(m), _) => m.clone(),
                (op, None, l) => {
                    let d: Vec<i64> = l.iter().map(|l| i64::from(at[*l]) - i64::from(at[k])).collect();
                    expect_label(*op, &d)
                }
            };
            let got = ops::lower(i);
            ensure!(got == want, "resolved to {} at {}, expected {}", got.show(), at[k], want.show());
        }
        // written and read again, following each jump reaches its label
        let code = Code::new(res);
        let mut bytes = vec![];
        code.encode(&mut bytes).map_err(|e| Fail::from(e.to_string()))?;
        let back = Code::<Offset>::decode(&mut &bytes[..]).map_err(|e| Fail::from(e.to_string()))?;
        ensure!(back == code, "read back differently");
        for (k, (loc, i)) in back.iter().enumerate() {
            let offs: Vec<Offset> = match i {
                Instr::Switch(_, o) | Instr::Jump(o) | Instr::JumpIfFalse(o) | Instr::Skip(o) | Instr::Context(o) => vec![o],
                Instr::InvokeStatic(o, ..) | Instr::InvokeVirtual(o, ..) => vec![o],
                Instr::SwitchLabel(a, b) | Instr::Conditional(a, b) => vec![a, b],
                _ => vec![],
            };
            for (o, l) in offs.iter().zip(&prog[k].2) {
                let t = o.absolute(loc);
                ensure!(t.value == at[*l], "the jump at {loc} leads to {t}, its label is at {}", at[*l]);
                let mut cur = back.cursor();
                cur.seek_abs(loc).map_err(|e| Fail::from(e.to_string()))?;
                cur.seek_rel(*o).map_err(|e| Fail::from(e.to_string()))?;
                ensure!(cur.pos().value == at[*l], "following the jump at {loc}");
                cx.step();
            }
        }
        cx.state();
        cx.trace();
        Ok(())
    });
    // every instruction keeps its operands when labels are resolved
    ctx.explore("operands when labels are resolved", |ch, cx| {
        let spec = ch.of(OPS);
        let base = *ch.of(&[0u16, 100, 20000, 32760, 40000, 65000]);
        let d = *ch.of(&[0i64, 3, 20, 200, 20000, -3, -90]);
        let t = i64::from(base) + d;
        if !(0..=65535).contains(&t) {
            return Ok(());
        }
        let targets = [Location::new(base), Location::new(t as u16), Location::new(0)];
        if JUMPS.contains(&spec.op) {
            let two = spec.op == 29 || spec.op == 34;
            let l = if two { vec![1, 0] } else { vec![1] };
            let i = label_instr(spec.op, &l).resolve_labels(Location::new(base), &targets);
            let want = expect_label(spec.op, &[d, 0]);
            ensure!(ops::lower(&i) == want, "{} at {base}", want.show());
            if two {
                let i = label_instr(spec.op, &[0, 1]).resolve_labels(Location::new(base), &targets);
                let want = expect_label(spec.op, &[0, d]);
                ensure!(ops::lower(&i) == want, "{} at {base}", want.show());
            }
            cx.state();
            cx.step();
            cx.trace();
        } else {
            let doms: Vec<Vec<Val>> = spec.kinds.iter().map(|k| ops::domain(*k)).collect();
            let n: usize = doms.iter().map(Vec::len).product();
            for mut x in 0..n.min(5000) {
                let mut vals = vec![];
                for dm in &doms {
                    vals.push(dm[x % dm.len()].clone());
                    x /= dm.len();
                }
                let m = MInstr::new(spec.op, vals);
                cx.case(|| m.show());
                let i = plain(&m);
                ensure!(usize::from(i.size()) == m.vm_size(), "size of {}", m.show());
                let r = i.resolve_labels(Location::new(base), &targets);
                ensure!(ops::lower(&r) == m, "{} became {}", m.show(), ops::lower(&r).show());
                cx.state();
                cx.step();
                cx.trace();
            }
        }
        Ok(())
    });
}
