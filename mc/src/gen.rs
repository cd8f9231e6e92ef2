//! Shapes of bundle content, shared by the checks.
use redscript::bundle::ScriptBundle;

use crate::model::*;
use crate::ops::{self, MInstr};
use crate::util::{fail, Chooser, Cx, Fail};

pub const BOUNDARY: &[usize] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513,
    1000, 1023, 1024, 1025, 4095, 4096, 4097,
];
pub const LARGE: &[usize] = &[8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 100_003];

pub fn load(bytes: &[u8]) -> Result<ScriptBundle, Fail> {
    ScriptBundle::load(&mut std::io::Cursor::new(bytes)).map_err(|e| Fail::from(format!("could not be loaded: {e}")))
}

pub fn save(b: &ScriptBundle) -> Result<Vec<u8>, Fail> {
    let mut c = std::io::Cursor::new(vec![]);
    b.save(&mut c).map_err(|e| Fail::from(format!("could not be saved: {e}")))?;
    Ok(c.into_inner())
}

/// load, look, save, load, look
pub fn roundtrip(m: &MBundle, cx: &mut Cx) -> Result<(), Fail> {
    roundtrip_file(&m.bytes(), m, cx)
}

pub fn roundtrip_file(file: &[u8], m: &MBundle, cx: &mut Cx) -> Result<(), Fail> {
    let want = View::expected(m);
    let b = load(file)?;
    cx.step();
    let got = View::of(&b.pool).canonical();
    if got != want {
        return fail("loaded content", format!("content after loading, got vs expected: {}", got.diff(&want)));
    }
    let out = save(&b)?;
    cx.step();
    let b2 = load(&out)?;
    cx.step();
    let got2 = View::of(&b2.pool).canonical();
    if got2 != want {
        return fail("reloaded content", format!("content after saving and loading, got vs expected: {}", got2.diff(&want)));
    }
    let out2 = save(&b2)?;
    if out2 != out {
        return fail("second save", "saving what was loaded from a saved file gives other bytes");
    }
    cx.state();
    cx.trace();
    Ok(())
}

pub fn s(x: &str) -> String {
    x.to_owned()
}

pub fn text(n: usize) -> String {
    let mut t = String::with_capacity(n);
    while t.len() < n {
        t.push((b'a' + (t.len() % 26) as u8) as char);
    }
    t
}

/// characters that are easily confused, folded, trimmed, escaped or cut
pub const LETTERS: &[&str] =
    &["a", "A", " ", "\t", "\n", "\r", "\"", "\\", "/", ";", ":", ".", "0", "é", "e\u{301}", "ß", "\u{feff}", "€", "𝄞", "\u{7f}"];

/// all strings of at most two letters
pub fn short_strings() -> Vec<String> {
    let mut v = vec![String::new()];
    for a in LETTERS {
        v.push(s(a));
        for b in LETTERS {
            v.push(format!("{a}{b}"));
        }
    }
    v
}

/// every way to put two short strings into the string tables
pub fn string_pair(ch: &mut Chooser, all: &[String]) -> MBundle {
    let mut m = MBundle::base();
    let (i, j) = *ch.of(&[(0usize, 0usize), (1, 1), (2, 2), (3, 3), (0, 1), (1, 0), (0, 3), (3, 1), (2, 3), (1, 2)]);
    let x = ch.of(all).clone();
    let y = ch.of(all).clone();
    for (k, z) in [(i, x), (j, y)] {
        match k {
            0 => m.names.push(z),
            1 => m.tweakdb.push(z),
            2 => m.resources.push(z),
            _ => m.strings.push(z),
        }
    }
    m
}

/// a short string wherever a definition holds text
pub fn text_places(ch: &mut Chooser, all: &[String]) -> MBundle {
    let mut m = MBundle::base();
    m.name("A");
    let pad = *ch.of(&["", "x", "xy z", "\u{0}"]);
    let x = ch.of(all);
    let x = if ch.flag() { format!("{pad}{x}") } else { format!("{x}{pad}") };
    let mut f = MField { vis: 1, type_: 1, flags: 0, hint: None, attributes: vec![], defaults: vec![] };
    let k = ch.pick(7);
    match k {
        0 => f.hint = Some(x.clone()),
        1 => f.attributes = vec![(x.clone(), s("v")), (s("n"), x.clone())],
        2 => f.attributes = vec![(x.clone(), x.clone()), (s(""), s("last"))],
        3 => f.defaults = vec![(x.clone(), s("v")), (s("n"), x.clone())],
        4 => f.defaults = vec![(x.clone(), x.clone()), (x.clone(), s("last"))],
        _ => {}
    }
    m.add(MDef::of(1, 0, MVal::Field(f)));
    if k == 5 {
        // a path is read with either separator and written with the game's
        m.add(MDef::of(0, 0, MVal::Source { id: 1, hash: 2, path: x.replace('\\', "/") }));
    }
    if k == 6 {
        let mut f = MFun::empty();
        f.code = vec![MInstr::new(51, vec![ops::prof(&x, 1)]), MInstr::ints(0, &[])];
        m.add(MDef::of(1, 0, MVal::Function(f)));
    }
    m.add(MDef::of(1, 0, MVal::EnumValue(77)));
    m
}

/// every kind of definition, a handful of contents each; indices are small
pub fn values() -> Vec<MVal> {
    let mut v = vec![
        MVal::Type(MType::Prim),
        MVal::Type(MType::Class),
        MVal::Type(MType::Ref(1)),
        MVal::Type(MType::WeakRef(2)),
        MVal::Type(MType::Array(3)),
        MVal::Type(MType::StaticArray(1, 0)),
        MVal::Type(MType::StaticArray(2, 300)),
        MVal::Type(MType::ScriptRef(1)),
        MVal::EnumValue(0),
        MVal::EnumValue(-1),
        MVal::EnumValue(i64::MAX),
        MVal::EnumValue(i64::MIN),
        MVal::EnumValue(1 << 33),
    ];
    for members in [vec![], vec![1], vec![2, 1, 2]] {
        v.push(MVal::Enum {
            flags: 3,
            size: 4,
            members,
            unk1: v.len() % 2 == 0,
        });
    }
    let mut c = MClass {
        vis: 0,
        flags: 0,
        base: 0,
        functions: vec![],
        fields: vec![],
        overrides: vec![],
    };
    v.push(MVal::Class(c.clone()));
    c.vis = 2;
    c.flags = cf::NATIVE | cf::STRUCT | cf::TEST_ONLY;
    c.base = 3;
    c.functions = vec![4, 2];
    v.push(MVal::Class(c.clone()));
    c.fields = vec![1];
    c.overrides = vec![7, 7, 1];
    v.push(MVal::Class(c.clone()));
    c.functions = vec![];
    v.push(MVal::Class(c));
    let mut f = MFun::empty();
    v.push(MVal::Function(f.clone()));
    f.code = vec![MInstr::ints(4, &[-3]), MInstr::ints(31, &[3]), MInstr::ints(0, &[])];
    f.ret = Some((3, true));
    v.push(MVal::Function(f.clone()));
    f.flags = ff::UNK4 | ff::STATIC | ff::FINAL;
    f.unk2 = vec![1, 3];
    v.push(MVal::Function(f.clone()));
    f.params = vec![2, 1];
    f.locals = vec![5];
    f.base = Some(2);
    f.operator = Some(0xdead_beef);
    f.flags |= ff::CAST | ff::CONST;
    f.cast = 9;
    v.push(MVal::Function(f.clone()));
    f.flags |= ff::NATIVE;
    f.source = None;
    v.push(MVal::Function(f));
    v.push(MVal::Param { type_: 1, flags: 0b1010 });
    v.push(MVal::Param { type_: 2, flags: 0b0101 });
    v.push(MVal::Local { type_: 1, flags: 1 });
    v.push(MVal::Local { type_: 9, flags: 0 });
    let mut fd = MField {
        vis: 1,
        type_: 1,
        flags: 0,
        hint: None,
        attributes: vec![],
        defaults: vec![],
    };
    v.push(MVal::Field(fd.clone()));
    fd.hint = Some(String::new());
    v.push(MVal::Field(fd.clone()));
    fd.hint = Some(s("hint é"));
    fd.attributes = vec![(s("a"), s("b")), (s(""), s(""))];
    fd.flags = fdf::PERSISTENT | fdf::BROWSABLE;
    v.push(MVal::Field(fd.clone()));
    fd.defaults = vec![(s("x"), s("y"))];
    fd.attributes = vec![];
    v.push(MVal::Field(fd));
    v.push(MVal::Source {
        id: 3,
        hash: 0x0123_4567_89ab_cdef,
        path: s("a/b.script"),
    });
    v.push(MVal::Source {
        id: 0,
        hash: 0,
        path: s(""),
    });
    v
}

/// a bundle with one of everything
pub fn full_bundle() -> MBundle {
    let mut b = MBundle::base();
    for n in ["Foo", "Bar", "Żółw", "baz;Int32"] {
        b.name(n);
    }
    b.tweakdb.push(s("Items.Preset"));
    b.resources.push(s("base\\x.ent"));
    b.strings.push(s("hello"));
    b.strings.push(s("Foo"));
    for (i, v) in values().into_iter().enumerate() {
        b.add(MDef {
            name: (i % 5) as u32,
            parent: (i % 4) as u32,
            unk: [i as u8, 2, 3],
            val: v,
        });
    }
    // a function with every instruction
    let mut f = MFun::empty();
    f.code = ops::representatives();
    b.add(MDef::of(1, 2, MVal::Function(f)));
    b
}

/// Definition flags: every one of the single bits and pairs of the word
pub fn bit_patterns(bits: u32) -> Vec<u32> {
    let mut v = vec![0];
    for i in 0..bits {
        v.push(1 << i);
        for j in 0..i {
            v.push(1 << i | 1 << j);
        }
    }
    let all = if bits == 32 { u32::MAX } else { (1 << bits) - 1 };
    for i in 0..bits {
        v.push(all & !(1 << i));
    }
    v.push(all);
    v
}

pub fn list(ch: &mut Chooser, lens: &[usize]) -> Vec<u32> {
    let n = *ch.of(lens);
    (0..n).map(|i| (i as u32 + 1).wrapping_mul(0x0101_0003) ^ 5).collect()
}
