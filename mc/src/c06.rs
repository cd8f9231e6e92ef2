//! C06 every definition record is written and read exactly
//! C08 remapping rewrites exactly the intended references
use redscript::bundle::{ConstantPool, DefinitionHeader, DefinitionType, PoolIndex};
use redscript::definition::{AnyDefinition, Class, Definition, Function};
use redscript::encode::Encode;
use redscript::mapper::{MultiMapper, PoolMapper};

use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::ops::{self, MInstr, Val, OPS};
use crate::util::{fail, hex, Chooser, Ctx, Cx, Fail};

fn header(v: &MVal, offset: u32, size: u32) -> DefinitionHeader {
    DefinitionHeader {
        name: PoolIndex::new(3),
        parent: PoolIndex::new(4),
        offset,
        size,
        type_: match v {
            MVal::Type(_) => DefinitionType::Type,
            MVal::Class(_) => DefinitionType::Class,
            MVal::EnumValue(_) => DefinitionType::EnumValue,
            MVal::Enum { .. } => DefinitionType::Enum,
            MVal::Function(_) => DefinitionType::Function,
            MVal::Param { .. } => DefinitionType::Parameter,
            MVal::Local { .. } => DefinitionType::Local,
            MVal::Field(_) => DefinitionType::Field,
            MVal::Source { .. } => DefinitionType::SourceFile,
        },
        unk1: 5,
        unk2: 6,
        unk3: 7,
    }
}

fn exact(v: &MVal, cx: &mut Cx) -> Result<(), Fail> {
    cx.case(|| format!("{v:?}").chars().take(400).collect());
    cx.sample(|| format!("{v:?}"));
    let want = v.bytes();
    let d = MDef { name: 3, parent: 4, unk: [5, 6, 7], val: v.clone() };
    let def = to_def(&d);
    let mut got = vec![];
    def.value.encode(&mut got).map_err(|e| Fail::from(format!("{v:?}: {e}")))?;
    cx.step();
    let key = || format!("{v:?}").chars().take(300).collect::<String>();
    if got != want {
        return fail(format!("encode {}", key()), format!("{} written as {}, expected {}", key(), hex(&got[..got.len().min(400)]), hex(&want[..want.len().min(400)])));
    }
    ensure!(DefinitionType::into_bytes_checked(&def.value) == v.tag(), "tag of {}", key());
    let mut file = vec![0xA5; 9];
    file.extend_from_slice(&want);
    file.extend_from_slice(&[0x5A; 3]);
    let mut c = std::io::Cursor::new(file);
    let back = Definition::decode(&mut c, &header(v, 9, want.len() as u32)).map_err(|e| Fail::from(format!("{}: {e}", key())))?;
    cx.step();
    if c.position() as usize != 9 + want.len() {
        return fail(format!("decode {}", key()), format!("{}: {} of {} bytes read", key(), c.position() as usize - 9, want.len()));
    }
    let low = from_def(&back);
    if low != d.clone().canonical() {
        return fail(format!("decode {}", key()), format!("{} read back as {:?}", key(), low.val));
    }
    cx.state();
    cx.trace();
    Ok(())
}

trait Tag {
    fn into_bytes_checked(v: &AnyDefinition) -> u8;
}
impl Tag for DefinitionType {
    fn into_bytes_checked(v: &AnyDefinition) -> u8 {
        let mut b = vec![];
        v.type_().encode(&mut b).expect("tag");
        b[0]
    }
}

const WORDS: &[u32] = &[0, 1, 2, 255, 256, 65535, 65536, 0x1234_5678, 0x7fff_ffff, 0x8000_0000, u32::MAX];
const LENS: &[usize] = &[0, 1, 2, 3, 255, 256, 257];

fn strs() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "é", "日本語", "a\0b", "\\", "a/b", "a\\b", "\"q\"", "\n", "None"].iter().map(|x| s(x)).collect();
    for n in [127, 128, 255, 256, 257, 32767, 32768, 65534, 65535] {
        v.push(text(n));
    }
    v.push("é".repeat(32767));
    v
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("the record layouts of the harness state the format; flags that say whether a list is present follow the list");
    ctx.assume("a non-native function has a source position; the second parameter list is used with its flag");
    ctx.explore("types", |ch, cx| {
        let k = ch.pick(7);
        let w = *ch.of(WORDS);
        let t = match k {
            0 => MType::Prim,
            1 => MType::Class,
            2 => MType::Ref(w),
            3 => MType::WeakRef(w),
            4 => MType::Array(w),
            5 => MType::StaticArray(w, *ch.of(WORDS)),
            _ => MType::ScriptRef(w),
        };
        exact(&MVal::Type(t), cx)
    });
    ctx.explore("enum values", |ch, cx| {
        let at = ch.pick(8);
        let rest = *ch.of(&[0u64, u64::MAX, 0x0102_0304_0506_0708]);
        let b = ch.pick(256) as u64;
        exact(&MVal::EnumValue(((rest & !(0xff << (8 * at))) | b << (8 * at)) as i64), cx)
    });
    ctx.explore("enums", |ch, cx| {
        let flags = *ch.of(&[0u8, 1, 2, 127, 128, 255]);
        let size = ch.pick(256) as u8;
        let members = list(ch, LENS);
        let unk1 = ch.flag();
        exact(&MVal::Enum { flags, size, members, unk1 }, cx)
    });
    ctx.explore("parameters and locals", |ch, cx| {
        let type_ = *ch.of(WORDS);
        let flags = ch.pick(256) as u8;
        exact(&if ch.flag() { MVal::Param { type_, flags } } else { MVal::Local { type_, flags } }, cx)
    });
    ctx.explore("classes: every flag word", |ch, cx| {
        let hi = ch.pick(256) as u16;
        let lo = ch.pick(256) as u16;
        let shape = ch.pick(8);
        let l = |b: usize| if shape >> b & 1 == 1 { vec![7 + b as u32, 9] } else { vec![] };
        let c = MClass { vis: (lo % 3) as u8, flags: hi << 8 | lo, base: 77, functions: l(0), fields: l(1), overrides: l(2) };
        exact(&MVal::Class(c), cx)
    });
    ctx.explore("classes: lists", |ch, cx| {
        let c = MClass {
            vis: ch.pick(3) as u8,
            flags: *ch.of(&[0u16, 0xffff]),
            base: *ch.of(WORDS),
            functions: list(ch, LENS),
            fields: list(ch, LENS),
            overrides: list(ch, LENS),
        };
        exact(&MVal::Class(c), cx)
    });
    ctx.explore("fields: every flag word", |ch, cx| {
        let hi = ch.pick(256) as u16;
        let lo = ch.pick(256) as u16;
        let f = MField {
            vis: (hi % 3) as u8,
            type_: 5,
            flags: hi << 8 | lo,
            hint: ch.flag().then(|| s("h")),
            attributes: if ch.flag() { vec![(s("a"), s("b"))] } else { vec![] },
            defaults: if ch.flag() { vec![(s("c"), s("dd"))] } else { vec![] },
        };
        exact(&MVal::Field(f), cx)
    });
    let st = strs();
    ctx.explore("fields: strings", |ch, cx| {
        let mut f = MField { vis: 2, type_: *ch.of(&[0u32, u32::MAX]), flags: 0, hint: None, attributes: vec![(s("x"), s("y"))], defaults: vec![] };
        let x = ch.of(&st).clone();
        match ch.pick(6) {
            0 => f.hint = Some(x),
            1 => f.attributes[0].0 = x,
            2 => f.attributes[0].1 = x,
            3 => f.defaults = vec![(x, s("v"))],
            4 => f.defaults = vec![(s("k"), x)],
            _ => {
                f.hint = Some(x.clone());
                f.attributes = vec![(x.clone(), x.clone()), (s(""), x.clone())];
                f.defaults = vec![(s(""), s("")), (x.clone(), x)];
            }
        }
        exact(&MVal::Field(f), cx)
    });
    ctx.explore("fields: property lists", |ch, cx| {
        let p = |n: usize| (0..n).map(|i| (format!("k{i}"), format!("v{}", i * 7))).collect::<Vec<_>>();
        let (a, b) = (*ch.of(LENS), *ch.of(LENS));
        exact(&MVal::Field(MField { vis: 0, type_: 1, flags: 0, hint: None, attributes: p(a), defaults: p(b) }), cx)
    });
    ctx.explore("source files", |ch, cx| {
        let mut p = ch.of(&st).clone();
        if p.contains('\\') {
            // separators are normalised to '/' in memory
            p = p.replace('\\', "/");
        }
        let hash = *ch.of(&[0u64, 1, 0x0123_4567_89ab_cdef, 1 << 32, u64::MAX]);
        exact(&MVal::Source { id: *ch.of(WORDS), hash, path: p }, cx)
    });
    ctx.explore("source files: separators", |ch, cx| {
        let n = ch.pick(if th { 8 } else { 7 });
        let p: String = (0..n).map(|_| *ch.of(&['a', '/', '.', 'é'])).collect();
        exact(&MVal::Source { id: 1, hash: 2, path: p }, cx)
    });
    let code = vec![MInstr::ints(24, &[7]), MInstr::ints(39, &[])];
    ctx.explore("functions: shapes", |ch, cx| {
        let mut f = MFun::empty();
        f.vis = ch.pick(3) as u8;
        let native = ch.flag();
        if native {
            f.flags |= ff::NATIVE;
            f.source = None;
        } else {
            f.source = Some((*ch.of(&[1u32, u32::MAX]), *ch.of(&[0u32, 0x1234_5678])));
        }
        f.ret = *ch.of(&[None, Some((0, false)), Some((9, true))]);
        f.base = *ch.of(&[None, Some(0), Some(11)]);
        f.params = list(ch, &[0, 1, 3]);
        f.locals = list(ch, &[0, 1, 2]);
        f.operator = *ch.of(&[None, Some(0), Some(u32::MAX)]);
        if ch.flag() {
            f.flags |= ff::CAST;
            f.cast = *ch.of(&[0u8, 255]);
        }
        if ch.flag() {
            f.code = code.clone();
        }
        if ch.flag() {
            f.flags |= ff::UNK4;
            f.unk2 = list(ch, &[0, 1, 2]);
        }
        exact(&MVal::Function(f), cx)
    });
    let pats = bit_patterns(32);
    ctx.explore("functions: flag words", |ch, cx| {
        let flags = *ch.of(&pats);
        let mut f = MFun::empty();
        f.flags = flags;
        if flags & ff::NATIVE != 0 {
            f.source = None;
        }
        if flags & ff::CAST != 0 {
            f.cast = 17;
        }
        let shape = ch.pick(32);
        if shape & 1 != 0 {
            f.ret = Some((9, true));
        }
        if shape & 2 != 0 {
            f.params = vec![4, 5];
        }
        if shape & 4 != 0 {
            f.code = code.clone();
        }
        if shape & 8 != 0 {
            f.operator = Some(77);
            f.base = Some(78);
        }
        if shape & 16 != 0 {
            f.locals = vec![10];
            if flags & ff::UNK4 != 0 {
                f.unk2 = vec![81, 82];
            }
        }
        exact(&MVal::Function(f), cx)
    });
    ctx.explore("functions: every 16 flag bits", |ch, cx| {
        let shift = if ch.flag() { 16 } else { 0 };
        let hi = ch.pick(256) as u32;
        for lo in 0..256u32 {
            let flags = (hi << 8 | lo) << shift;
            let mut f = MFun::empty();
            f.flags = flags;
            f.ret = (lo & 1 == 1).then_some((3, true));
            if flags & ff::NATIVE != 0 {
                f.source = None;
            }
            if flags & ff::CAST != 0 {
                f.cast = 17;
            }
            exact(&MVal::Function(f), cx)?;
        }
        Ok(())
    });
    ctx.explore("functions: lists and bodies", |ch, cx| {
        let mut f = MFun::empty();
        f.params = list(ch, LENS);
        f.locals = list(ch, LENS);
        if ch.flag() {
            f.flags |= ff::UNK4;
            f.unk2 = list(ch, LENS);
        }
        let n = *ch.of(LENS);
        f.code = vec![MInstr::ints(24, &[7]); n];
        exact(&MVal::Function(f), cx)
    });
    ctx.explore("functions: casts and source positions", |ch, cx| {
        let mut f = MFun::empty();
        if ch.flag() {
            f.flags = ff::CAST;
            f.cast = ch.pick(256) as u8;
        } else {
            f.source = Some((*ch.of(WORDS), *ch.of(WORDS)));
            f.operator = *ch.of(&[None, Some(3)]);
        }
        exact(&MVal::Function(f), cx)
    });
}

// ---------------------------------------------------------------- C08

fn remap(map: &[Option<u32>], i: u32) -> u32 {
    map.get(i as usize).copied().flatten().unwrap_or(i)
}

fn apply_model(b: &MBundle, classes: &[Option<u32>], funs: &[Option<u32>]) -> MBundle {
    let mut b = b.clone();
    for d in b.defs.iter_mut().skip(1) {
        match &mut d.val {
            MVal::Class(c) => c.base = remap(classes, c.base),
            MVal::Function(f) => {
                d.parent = remap(classes, d.parent);
                for i in &mut f.code {
                    let slot = match i.op {
                        35 => Some((1, classes)),
                        48 | 90 => Some((0, classes)),
                        36 => Some((2, funs)),
                        _ => None,
                    };
                    if let Some((k, m)) = slot {
                        i.vals[k] = Val::Int(i64::from(remap(m, i.vals[k].int() as u32)));
                    }
                }
            }
            MVal::Param { .. } | MVal::Local { .. } => d.parent = remap(funs, d.parent),
            MVal::Field(_) => d.parent = remap(classes, d.parent),
            _ => {}
        }
    }
    b
}

fn table(map: &[Option<u32>]) -> Vec<(u32, u32)> {
    map.iter().enumerate().filter_map(|(i, m)| m.map(|t| (i as u32, t))).collect()
}

fn run_mapper(pool: &mut ConstantPool, classes: Option<&[Option<u32>]>, funs: Option<&[Option<u32>]>) {
    let cm = |c: &[Option<u32>]| MultiMapper::new(table(c).into_iter().map(|(a, b)| (PoolIndex::<Class>::new(a), PoolIndex::new(b))).collect());
    let fm = |c: &[Option<u32>]| MultiMapper::new(table(c).into_iter().map(|(a, b)| (PoolIndex::<Function>::new(a), PoolIndex::new(b))).collect());
    match (classes, funs) {
        (None, None) => PoolMapper::default().map(pool),
        (Some(c), None) => PoolMapper::default().with_class_mapper(cm(c)).map(pool),
        (None, Some(f)) => PoolMapper::default().with_function_mapper(fm(f)).map(pool),
        (Some(c), Some(f)) => PoolMapper::default().with_class_mapper(cm(c)).with_function_mapper(fm(f)).map(pool),
    }
}

fn map_choice(ch: &mut Chooser, n: usize, to: u32) -> Vec<Option<u32>> {
    (0..n)
        .map(|_| {
            let k = ch.pick(to as usize + 1);
            (k > 0).then(|| k as u32 - 1)
        })
        .collect()
}

fn check_map(m: &MBundle, classes: Option<&[Option<u32>]>, funs: Option<&[Option<u32>]>, cx: &mut Cx) -> Result<(), Fail> {
    let mut b = load(&m.bytes())?;
    run_mapper(&mut b.pool, classes, funs);
    cx.step();
    let want = View::expected(&apply_model(m, classes.unwrap_or(&[]), funs.unwrap_or(&[])));
    let got = View::of(&b.pool).canonical();
    if got != want {
        return fail(
            format!("classes {classes:?} functions {funs:?}"),
            format!("classes {classes:?} functions {funs:?}: got vs expected {}", got.diff(&want)),
        );
    }
    let out = save(&b)?;
    let again = View::of(&load(&out)?.pool).canonical();
    ensure!(again == want, "after saving: {}", again.diff(&want));
    cx.state();
    cx.trace();
    Ok(())
}

pub fn run8(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("the placeholder at index 0 is left alone; a mapping is applied once, not to its own results");
    let n = if th { 4 } else { 3 };
    ctx.explore("all maps, every kind of definition", |ch, cx| {
        let mut m = MBundle::base();
        m.name("A");
        for v in values() {
            for parent in 0..4 {
                let mut v = v.clone();
                if let MVal::Class(c) = &mut v {
                    c.base = parent;
                }
                m.add(MDef::of(1, parent, v));
            }
        }
        let c = map_choice(ch, n, n as u32);
        let f = map_choice(ch, n, if th { 3 } else { 2 });
        cx.sample(|| format!("classes {c:?} functions {f:?}"));
        check_map(&m, Some(&c), Some(&f), cx)
    });
    ctx.explore("which mappers are given", |ch, cx| {
        let m = full_bundle();
        let c = map_choice(ch, 3, 3);
        let f = map_choice(ch, 3, 3);
        let k = ch.pick(3);
        check_map(&m, (k == 1).then_some(&c[..]), (k == 2).then_some(&f[..]), cx)
    });
    ctx.explore("every instruction, every operand", |ch, cx| {
        let spec = ch.of(OPS);
        let slot = ch.pick(spec.kinds.len().max(1));
        let v = ch.pick(4) as i64;
        let other = ch.pick(3) as i64;
        let vals: Vec<Val> = spec
            .kinds
            .iter()
            .enumerate()
            .map(|(i, k)| match k {
                ops::Kind::Brk | ops::Kind::Prof => ops::small_domain(*k)[0].clone(),
                _ => Val::Int(if i == slot { v } else { other }),
            })
            .collect();
        let i = MInstr::new(spec.op, vals);
        let pos = ch.pick(3);
        let mut f = MFun::empty();
        f.base = Some(1);
        f.params = vec![1];
        f.locals = vec![2];
        f.ret = Some((1, false));
        f.source = Some((1, 2));
        f.code = vec![MInstr::ints(48, &[2]); 3];
        f.code[pos] = i;
        let mut m = MBundle::base();
        m.name("A");
        m.add(MDef::of(1, 1, MVal::Function(f)));
        m.add(MDef::of(1, 2, MVal::EnumValue(1)));
        cx.case(|| format!("{:?}", m.defs[1]));
        let maps: [[Option<u32>; 4]; 4] = [
            [None, Some(2), Some(1), Some(3)],
            [Some(3), Some(2), Some(3), None],
            [None, None, Some(0), Some(1)],
            [None; 4],
        ];
        let (c, f) = (*ch.of(&maps), *ch.of(&maps));
        check_map(&m, Some(&c), Some(&f), cx)
    });
    ctx.explore("large indices and long bodies", |ch, cx| {
        let k = *ch.of(&[1usize, 2, 127, 128, 255, 256, 257, 1000, 5000]);
        let big = *ch.of(&[5u32, 255, 256, 65535, 65536, 70000]);
        let mut f = MFun::empty();
        f.code = (0..k)
            .map(|i| match i % 4 {
                0 => MInstr::ints(48, &[i64::from(big)]),
                1 => MInstr::ints(36, &[3, 1, i64::from(big), 0]),
                2 => MInstr::ints(35, &[2, 3]),
                _ => MInstr::ints(90, &[i64::from(big), 0]),
            })
            .collect();
        let mut m = MBundle::base();
        m.name("A");
        for _ in 0..3 {
            m.add(MDef::of(1, big, MVal::Function(f.clone())));
        }
        for _ in 0..k {
            m.add(MDef::of(1, big, MVal::Param { type_: 1, flags: 0 }));
        }
        let mut c = vec![None; big as usize + 1];
        c[big as usize] = Some(big + 9);
        c[3] = Some(big);
        let mut g = c.clone();
        g[big as usize] = Some(1);
        check_map(&m, Some(&c), Some(&g), cx)
    });
}
