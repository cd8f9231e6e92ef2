//! C01 a bundle keeps its content and indices through load and save
//! C02 a saved file is laid out and checksummed exactly as the format says
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::definition::Definition;
use redscript::Ref;

use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::ops::{self, MInstr};
use crate::util::{fail, hex, Chooser, Ctx, Cx, Fail};

const ALPHABET: &[&str] = &["", "a", "None", "Żółw", "ab"];

fn strings(ch: &mut Chooser, max: usize) -> Vec<String> {
    let n = ch.pick(max + 1);
    (0..n).map(|_| s(ch.of::<&str>(ALPHABET))).collect()
}

pub fn string_tables(ch: &mut Chooser, thorough: bool) -> MBundle {
    let mut b = MBundle::base();
    let k = usize::from(thorough);
    b.names = strings(ch, 2 + k);
    b.tweakdb = strings(ch, 1 + k);
    b.resources = strings(ch, 1);
    b.strings = strings(ch, 2);
    b
}

fn sized(ch: &mut Chooser, sizes: &[usize]) -> MBundle {
    let mut b = MBundle::base();
    let kind = ch.pick(13);
    let n = *ch.of(sizes);
    let many = |p: &str| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>();
    match kind {
        0 => b.names = many("n"),
        1 => b.tweakdb = many("t"),
        2 => b.resources = many("r"),
        3 => b.strings = many("s"),
        4 => {
            // one string of that length in each table
            b.names.push(text(n));
            b.strings.push(text(n) + "x");
            b.tweakdb.push(text(n) + "y");
            b.resources.push(text(n) + "z");
        }
        5 => {
            for i in 0..n {
                b.add(MDef::of(0, i as u32, MVal::EnumValue(i as i64)));
            }
        }
        6 => {
            let mut f = MFun::empty();
            f.code = (0..n).map(|i| MInstr::ints(6, &[i as i64])).collect();
            b.add(MDef::of(0, 0, MVal::Function(f)));
        }
        7 => {
            let mut f = MFun::empty();
            f.params = (1..=n as u32).collect();
            f.locals = (7..7 + n as u32).rev().collect();
            b.add(MDef::of(0, 0, MVal::Function(f)));
        }
        8 => {
            let r: Vec<u32> = (1..=n as u32).collect();
            b.add(MDef::of(
                0,
                0,
                MVal::Class(MClass {
                    vis: 1,
                    flags: 0,
                    base: 1,
                    functions: r.clone(),
                    fields: r.iter().rev().copied().collect(),
                    overrides: r,
                }),
            ));
        }
        9 => {
            b.add(MDef::of(
                0,
                0,
                MVal::Enum {
                    flags: 0,
                    size: 8,
                    members: (3..3 + n as u32).collect(),
                    unk1: true,
                },
            ));
        }
        10 => {
            let n = n.min(65535);
            b.add(MDef::of(
                0,
                0,
                MVal::Field(MField {
                    vis: 0,
                    type_: 1,
                    flags: 0,
                    hint: Some(text(n)),
                    attributes: vec![(text(n), s("v"))],
                    defaults: vec![(s("k"), text(n))],
                }),
            ));
            b.add(MDef::of(0, 0, MVal::Source { id: 1, hash: 2, path: text(n) }));
        }
        11 => {
            let p: Vec<(String, String)> = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect();
            b.add(MDef::of(
                0,
                0,
                MVal::Field(MField {
                    vis: 0,
                    type_: 1,
                    flags: 0,
                    hint: None,
                    attributes: p.clone(),
                    defaults: p.into_iter().rev().collect(),
                }),
            ));
        }
        _ => {
            let mut f = MFun::empty();
            f.flags = ff::UNK4;
            f.unk2 = (1..=n as u32).collect();
            b.add(MDef::of(0, 0, MVal::Function(f)));
        }
    }
    // something after it, to notice a loss of position
    b.add(MDef::of(0, 1, MVal::Source { id: 77, hash: 88, path: s("q/r.script") }));
    b
}

fn three_defs(ch: &mut Chooser, vals: &[MVal], n: usize) -> MBundle {
    let mut b = MBundle::base();
    b.name("A");
    b.name("B");
    for i in 0..n {
        let v = ch.of(vals).clone();
        b.add(MDef {
            name: (i % 3) as u32,
            parent: (2 * i) as u32,
            unk: [1, 2 + i as u8, 255],
            val: v,
        });
    }
    b
}

/// The same content in a file laid out by someone else: shared string tails, padding, and
/// definition bodies in any order with gaps.
fn foreign_layout(m: &MBundle, ch: &mut Chooser) -> Vec<u8> {
    let suffix_sharing = ch.flag();
    let dup_strings = ch.flag();
    let pad_data = *ch.of(&[0usize, 1, 300]);
    let order = ch.pick(3);
    let gap = *ch.of(&[0usize, 5]);
    let share_bodies = ch.flag();
    let mut data: Vec<u8> = vec![0xEE; pad_data];
    if pad_data > 0 {
        data.push(0);
    }
    let mut offs: Vec<Vec<u32>> = vec![];
    for t in [&m.names, &m.tweakdb, &m.resources, &m.strings] {
        let mut o = vec![];
        for x in t {
            let mut at = None;
            let mut z = x.as_bytes().to_vec();
            z.push(0);
            if suffix_sharing && pad_data == 0 {
                at = data.windows(z.len()).position(|w| w == &z[..]);
            }
            let p = match at {
                Some(p) if !dup_strings => p,
                _ => {
                    data.extend_from_slice(&z);
                    data.len() - z.len()
                }
            };
            o.push(p as u32);
        }
        offs.push(o);
    }
    let bytes = |v: &Vec<u32>| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let (n, t, r, st) = (bytes(&offs[0]), bytes(&offs[1]), bytes(&offs[2]), bytes(&offs[3]));
    let o_names = HEADER + data.len();
    let o_tdb = o_names + n.len();
    let o_res = o_tdb + t.len();
    let o_defs = o_res + r.len();
    let o_strs = o_defs + 20 * m.defs.len();
    let o_body = o_strs + st.len();
    let mut idx: Vec<usize> = (1..m.defs.len()).collect();
    match order {
        1 => idx.reverse(),
        2 => {
            let k = idx.len() / 2;
            idx.rotate_left(k);
        }
        _ => {}
    }
    let mut at = vec![(0u32, 0u32); m.defs.len()];
    let mut body: Vec<u8> = vec![];
    let mut seen: std::collections::HashMap<Vec<u8>, usize> = Default::default();
    for i in idx {
        let b = m.defs[i].val.bytes();
        let p = match seen.get(&b) {
            Some(p) if share_bodies => *p,
            _ => {
                body.extend(std::iter::repeat(0xCD).take(gap));
                body.extend_from_slice(&b);
                body.len() - b.len()
            }
        };
        seen.insert(b.clone(), p);
        at[i] = ((o_body + p) as u32, b.len() as u32);
    }
    let mut heads = vec![];
    for (i, d) in m.defs.iter().enumerate() {
        heads.extend_from_slice(&d.name.to_le_bytes());
        heads.extend_from_slice(&d.parent.to_le_bytes());
        heads.extend_from_slice(&at[i].0.to_le_bytes());
        heads.extend_from_slice(&at[i].1.to_le_bytes());
        heads.push(d.val.tag());
        heads.extend_from_slice(&d.unk);
    }
    let tables = [
        (HEADER as u32, data.len() as u32, 0),
        (o_names as u32, m.names.len() as u32, 0),
        (o_tdb as u32, m.tweakdb.len() as u32, 0),
        (o_res as u32, m.resources.len() as u32, 0),
        (o_defs as u32, m.defs.len() as u32, 0),
        (o_strs as u32, m.strings.len() as u32, 0),
    ];
    let mut out = header_bytes(m, 0, &tables);
    for p in [&data, &n, &t, &r, &heads, &st, &body] {
        out.extend_from_slice(p);
    }
    out
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("the saved and loaded content is compared through the public accessors of the pool");
    ctx.assume("flags that only say whether a list is present follow the list");
    ctx.explore("string tables", |ch, cx| {
        let b = string_tables(ch, th);
        cx.case(|| format!("{:?} {:?} {:?} {:?}", b.names, b.tweakdb, b.resources, b.strings));
        cx.sample(|| format!("names={:?} tweakdb={:?} resources={:?} strings={:?}", b.names, b.tweakdb, b.resources, b.strings));
        roundtrip(&b, cx)
    });
    let shorts = short_strings();
    ctx.explore("pairs of short strings", |ch, cx| {
        let b = string_pair(ch, &shorts);
        cx.case(|| format!("{:?} {:?} {:?} {:?}", b.names, b.tweakdb, b.resources, b.strings));
        roundtrip(&b, cx)
    });
    ctx.explore("short strings in definitions", |ch, cx| {
        let b = text_places(ch, &shorts);
        cx.case(|| format!("{:?}", b.defs));
        roundtrip(&b, cx)
    });
    let vals = values();
    ctx.explore("definition tuples", |ch, cx| {
        let b = three_defs(ch, &vals, if th { 3 } else { 2 });
        cx.case(|| format!("{:?}", b.defs));
        cx.sample(|| format!("{:?}", b.defs));
        roundtrip(&b, cx)
    });
    ctx.explore("sizes", |ch, cx| {
        let b = sized(ch, BOUNDARY);
        cx.sample(|| format!("names={} defs={}", b.names.len(), b.defs.len()));
        roundtrip(&b, cx)
    });
    ctx.explore("large sizes", |ch, cx| {
        let b = sized(ch, LARGE);
        cx.sample(|| format!("names={} defs={}", b.names.len(), b.defs.len()));
        roundtrip(&b, cx)
    });
    ctx.explore("name, parent and reserved bytes of a definition", |ch, cx| {
        let mut b = MBundle::base();
        b.name("A");
        let words = [0u32, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
        let val = ch.of(&vals).clone();
        let which = ch.pick(5);
        let mut d = MDef::of(1, 0, val);
        match which {
            0 => d.name = *ch.of(&words),
            1 => d.parent = *ch.of(&words),
            k => d.unk[k - 2] = ch.pick(256) as u8,
        }
        cx.case(|| format!("{d:?}"));
        cx.sample(|| format!("{d:?}"));
        b.add(d);
        b.add(MDef::of(1, 1, MVal::EnumValue(5)));
        roundtrip(&b, cx)
    });
    ctx.explore("files laid out by another writer", |ch, cx| {
        let mut m = full_bundle();
        m.names.push(s("xFoo"));
        m.names.push(s("oo"));
        let rot = ch.pick(3);
        m.strings.rotate_left(rot);
        let file = foreign_layout(&m, ch);
        cx.sample(|| format!("{} bytes", file.len()));
        roundtrip_file(&file, &m, cx)
    });
    // histories: load, then grow the pool through its operations, save, load
    ctx.explore("edited after loading", |ch, cx| {
        let m0 = full_bundle();
        let mut b = load(&m0.bytes())?;
        let mut m = m0;
        for _ in 0..(if th { 4 } else { 3 }) {
            edit(&mut b.pool, &mut m, ch);
            cx.step();
        }
        let out = save(&b)?;
        let b2 = load(&out)?;
        let want = View::expected(&m);
        let got = View::of(&b2.pool).canonical();
        if got != want {
            return fail("edited content", format!("after edits, save and load: {}", got.diff(&want)));
        }
        ensure!(save(&b2)? == out, "second save differs");
        // the pool in memory is unchanged by saving it
        let mem = View::of(&b.pool).canonical();
        ensure!(mem == want, "saving changed the pool: {}", mem.diff(&want));
        cx.state();
        cx.trace();
        Ok(())
    });
    for f in ["predef.redscripts", "predef.redscripts.cmp"] {
        let bytes = std::fs::read(format!("/repo/resources/{f}")).unwrap_or_default();
        ctx.explore(&format!("shipped bundle {f}"), |ch, cx| {
            let _ = ch.pick(1);
            if bytes.is_empty() {
                return Ok(());
            }
            let b = load(&bytes)?;
            let v = View::of(&b.pool).canonical();
            let out = save(&b)?;
            let b2 = load(&out)?;
            let v2 = View::of(&b2.pool).canonical();
            ensure!(v == v2, "{f}: {}", v2.diff(&v));
            ensure!(save(&b2)? == out, "{f}: second save differs");
            cx.state();
            cx.trace();
            Ok(())
        });
    }
}

fn edit(pool: &mut ConstantPool, m: &mut MBundle, ch: &mut Chooser) {
    let fresh = ["Foo", "new", "None", ""];
    match ch.pick(9) {
        0 => {
            let x = *ch.of(&fresh);
            pool.names.add(Ref::from(x));
            if x != "None" {
                intern(&mut m.names, x);
            }
        }
        1 => {
            let x = *ch.of(&fresh);
            pool.strings.add(Ref::from(x));
            intern(&mut m.strings, x);
        }
        2 => {
            let x = *ch.of(&fresh);
            pool.tweakdb_ids.add(Ref::from(x));
            intern(&mut m.tweakdb, x);
        }
        3 => {
            let x = *ch.of(&fresh);
            pool.resources.add(Ref::from(x));
            intern(&mut m.resources, x);
        }
        4 => {
            let d = MDef::of(2, 1, MVal::Class(MClass { vis: 1, flags: 2, base: 9, functions: vec![3], fields: vec![], overrides: vec![] }));
            pool.add_definition::<Definition>(to_def(&d));
            m.add(d);
        }
        5 => {
            let mut f = MFun::empty();
            f.code = vec![MInstr::ints(6, &[42]), MInstr::ints(39, &[])];
            let d = MDef::of(3, 1, MVal::Function(f));
            let i = 5;
            pool.put_definition(PoolIndex::<Definition>::new(i), to_def(&d));
            m.defs[i as usize] = d;
        }
        6 => {
            pool.swap_definition(PoolIndex::<Definition>::new(3), PoolIndex::new(20));
            m.defs.swap(3, 20);
        }
        7 => {
            pool.rename(PoolIndex::<Definition>::new(4), PoolIndex::new(3));
            m.defs[4].name = 3;
        }
        _ => {
            pool.reserve::<Definition>();
            m.add(MDef::placeholder());
        }
    }
}

// ---------------------------------------------------------------- C02

fn u32at(b: &[u8], o: usize) -> usize {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize
}

/// Judges a saved file by the format alone.
pub fn well_formed(out: &[u8]) -> Result<(), Fail> {
    ensure!(out.len() >= HEADER, "shorter than its header");
    ensure!(&out[..4] == b"REDS", "magic {:?}", &out[..4]);
    let t = |i: usize| {
        let o = 32 + 12 * i;
        (u32at(out, o), u32at(out, o + 4), u32at(out, o + 8))
    };
    let [data, names, tdb, res, defs, strs] = [t(0), t(1), t(2), t(3), t(4), t(5)];
    let mut h = out[..HEADER].to_vec();
    h[24..28].copy_from_slice(&0xDEAD_BEEFu32.to_le_bytes());
    ensure!(crc32(&h) as usize == u32at(out, 24), "header checksum");
    let ends = [
        ("data", data, 1),
        ("names", names, 4),
        ("tweakdb", tdb, 4),
        ("resources", res, 4),
        ("definitions", defs, 20),
        ("strings", strs, 4),
    ];
    let mut at = HEADER;
    for (n, (o, c, hash), w) in ends {
        ensure!(o == at, "{n} table at {o}, expected {at}");
        at = o + c * w;
        ensure!(at <= out.len(), "{n} table ends beyond the file");
        ensure!(crc32(&out[o..at]) as usize == hash, "{n} table checksum");
    }
    let d = &out[data.0..data.0 + data.1];
    for (o, c, _) in [names, tdb, res, strs] {
        for i in 0..c {
            let p = u32at(out, o + 4 * i);
            ensure!(p < d.len(), "string offset {p} outside the string data");
            ensure!(p == 0 || d[p - 1] == 0, "string offset {p} is not at the start of a string");
            ensure!(d[p..].contains(&0), "string at {p} is not terminated");
        }
    }
    for i in 0..defs.1 {
        let o = defs.0 + 20 * i;
        let (off, size) = (u32at(out, o + 8), u32at(out, o + 12));
        if i == 0 {
            ensure!(out[o..o + 20].iter().all(|b| *b == 0), "the placeholder entry is not empty");
            continue;
        }
        ensure!(off == at, "definition {i} at {off}, expected {at}");
        at += size;
    }
    ensure!(at == out.len(), "{} bytes, the definitions end at {at}", out.len());
    Ok(())
}

fn exact(m: &MBundle, cx: &mut Cx) -> Result<(), Fail> {
    exact_file(&m.bytes(), m, cx)
}

fn exact_file(file: &[u8], m: &MBundle, cx: &mut Cx) -> Result<(), Fail> {
    let b = load(file)?;
    let out = save(&b)?;
    cx.step();
    well_formed(&out)?;
    let want = m.bytes();
    if out != want {
        let p = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(out.len().min(want.len()));
        let lo = p.saturating_sub(8);
        return fail(
            "bytes",
            format!(
                "the saved file ({} bytes) differs from the reference ({} bytes) at {p}: {} vs {}",
                out.len(),
                want.len(),
                hex(&out[lo..out.len().min(p + 16)]),
                hex(&want[lo..want.len().min(p + 16)])
            ),
        );
    }
    cx.state();
    cx.trace();
    Ok(())
}

/// small bundles, many of them with tables of equal sizes
fn transplant(ch: &mut Chooser) -> MBundle {
    let mut m = MBundle::base();
    m.names.push(s(ch.of::<&str>(&["ab", "cd", "abc"])));
    m.strings.push(s(ch.of::<&str>(&["xy", "zw", ""])));
    if ch.flag() {
        m.tweakdb.push(s("ab"));
        m.resources.push(s("q"));
    }
    let v = *ch.of(&[1i64, 2, 300]);
    m.add(MDef::of(ch.pick(2) as u32, 0, MVal::EnumValue(v)));
    m
}

pub fn run2(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("the reference writer of the harness states the format; it shares no code with the library");
    ctx.explore("header words", |ch, cx| {
        let mut m = full_bundle();
        let words = [0u32, 1, 13, 14, 15, 255, 256, 65535, 65536, 0x1234_5678, 0x7fff_ffff, 0x8000_0000, u32::MAX];
        match ch.pick(5) {
            0 => m.version = *ch.of(&words),
            1 => m.flags = *ch.of(&words),
            2 => m.unk3 = *ch.of(&words),
            3 => m.chunks = *ch.of(&words),
            _ => {
                let i = ch.pick(8);
                m.timestamp = if ch.flag() { [0xff; 8] } else { [0; 8] };
                m.timestamp[i] = ch.pick(256) as u8;
            }
        }
        cx.sample(|| format!("version={} flags={} unk3={} chunks={} ts={:?}", m.version, m.flags, m.unk3, m.chunks, m.timestamp));
        exact(&m, cx)
    });
    ctx.explore("string tables", |ch, cx| {
        let m = string_tables(ch, th);
        cx.case(|| format!("{:?} {:?} {:?} {:?}", m.names, m.tweakdb, m.resources, m.strings));
        cx.sample(|| format!("{:?} {:?} {:?} {:?}", m.names, m.tweakdb, m.resources, m.strings));
        exact(&m, cx)
    });
    let shorts = short_strings();
    ctx.explore("pairs of short strings", |ch, cx| {
        let m = string_pair(ch, &shorts);
        cx.case(|| format!("{:?} {:?} {:?} {:?}", m.names, m.tweakdb, m.resources, m.strings));
        exact(&m, cx)
    });
    ctx.explore("short strings in definitions", |ch, cx| {
        let m = text_places(ch, &shorts);
        cx.case(|| format!("{:?}", m.defs));
        exact(&m, cx)
    });
    let vals = values();
    ctx.explore("definition tuples", |ch, cx| {
        let m = three_defs(ch, &vals, if th { 3 } else { 2 });
        cx.case(|| format!("{:?}", m.defs));
        exact(&m, cx)
    });
    ctx.explore("sizes", |ch, cx| {
        let m = sized(ch, BOUNDARY);
        exact(&m, cx)
    });
    ctx.explore("large sizes", |ch, cx| {
        let m = sized(ch, LARGE);
        exact(&m, cx)
    });
    ctx.explore("files laid out by another writer", |ch, cx| {
        let mut m = full_bundle();
        m.names.push(s("xFoo"));
        m.names.push(s("oo"));
        let file = foreign_layout(&m, ch);
        exact_file(&file, &m, cx)
    });
    ctx.explore("edited after loading", |ch, cx| {
        let mut m = full_bundle();
        let mut b = load(&m.bytes())?;
        for _ in 0..(if th { 4 } else { 3 }) {
            edit(&mut b.pool, &mut m, ch);
            cx.step();
        }
        let out = save(&b)?;
        well_formed(&out)?;
        ensure!(out == m.bytes(), "the saved file differs from the reference");
        cx.state();
        cx.trace();
        Ok(())
    });
    ctx.explore("content of one file saved with the header of another", |ch, cx| {
        // the header words come from the first file, everything else from the second
        let mut m = transplant(ch);
        m.version = 13;
        m.flags = 7;
        m.unk3 = 9;
        m.chunks = 3;
        m.timestamp = [1, 2, 3, 4, 5, 6, 7, 8];
        let mut b = load(&m.bytes())?;
        let mut n = transplant(ch);
        b.pool = load(&n.bytes())?.pool;
        (n.version, n.flags, n.unk3, n.chunks, n.timestamp) = (m.version, m.flags, m.unk3, m.chunks, m.timestamp);
        let out = save(&b)?;
        cx.step();
        well_formed(&out)?;
        cx.case(|| format!("{:?} {:?} {:?} -> {:?} {:?} {:?}", m.names, m.strings, m.defs, n.names, n.strings, n.defs));
        ensure!(out == n.bytes(), "the saved file differs from the reference");
        cx.state();
        cx.trace();
        Ok(())
    });
    ctx.explore("output position and old content", |ch, cx| {
        // wherever the output stands and whatever it holds, the file starts at its beginning
        let m = full_bundle();
        let b = load(&m.bytes())?;
        let want = m.bytes();
        let old = *ch.of(&[0usize, 1, 103, 104, 105, 4096]);
        let at = *ch.of(&[0u64, 1, 50, 104, 200]);
        let mut c = std::io::Cursor::new(vec![0xAA; old.min(want.len())]);
        c.set_position(at);
        b.save(&mut c).map_err(|e| Fail::from(e.to_string()))?;
        ensure!(c.into_inner() == want, "old={old} at={at}");
        cx.state();
        cx.trace();
        Ok(())
    });
    for f in ["predef.redscripts", "predef.redscripts.cmp"] {
        let bytes = std::fs::read(format!("/repo/resources/{f}")).unwrap_or_default();
        ctx.explore(&format!("shipped bundle {f}"), |_, cx| {
            if !bytes.is_empty() {
                let out = save(&load(&bytes)?)?;
                well_formed(&out)?;
                ensure!(out[4..24] == bytes[4..24] && out[28..32] == bytes[28..32], "{f}: header words changed");
                cx.state();
                cx.trace();
            }
            Ok(())
        });
    }
    let _ = ops::OPS.len();
}
