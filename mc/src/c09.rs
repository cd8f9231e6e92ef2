//! C09 a damaged file is refused or loaded, never a crash, and what is loaded can be saved
//! C10 partial, interrupted and failing input and output
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

use redscript::bundle::ScriptBundle;
use redscript::io::StreamOffset;

use crate::alloc;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::ops::{self, MInstr};
use crate::util::{fail, guarded, Chooser, Ctx, Cx, Fail};

fn small(kind: usize) -> MBundle {
    let mut b = MBundle::base();
    b.name("Foo");
    b.strings.push(s("hello"));
    match kind {
        0 => {}
        1 => {
            for (i, v) in values().into_iter().enumerate() {
                b.add(MDef { name: (i % 3) as u32, parent: (i % 4) as u32, unk: [1, 2, 3], val: v });
            }
        }
        2 => {
            let mut f = MFun::empty();
            f.code = ops::representatives();
            f.params = vec![1];
            b.add(MDef::of(1, 0, MVal::Function(f)));
        }
        3 => {
            let mut f = MFun::empty();
            f.code = vec![MInstr::ints(24, &[1]), MInstr::ints(31, &[-3]), MInstr::new(51, vec![ops::prof("ab", 1)])];
            f.flags = ff::UNK4 | ff::CAST;
            f.unk2 = vec![2];
            f.locals = vec![2];
            f.operator = Some(1);
            f.ret = Some((1, true));
            b.add(MDef::of(1, 0, MVal::Function(f)));
            b.add(MDef::of(1, 0, MVal::Source { id: 1, hash: 3, path: s("a/b") }));
        }
        _ => {
            b.add(MDef::of(1, 0, MVal::Class(MClass { vis: 0, flags: 0, base: 1, functions: vec![1], fields: vec![2], overrides: vec![3] })));
            b.add(MDef::of(1, 1, MVal::Field(MField { vis: 1, type_: 1, flags: 0, hint: Some(s("h")), attributes: vec![(s("a"), s("b"))], defaults: vec![] })));
            b.add(MDef::of(1, 0, MVal::Enum { flags: 0, size: 4, members: vec![1, 2], unk1: true }));
        }
    }
    b
}

/// Any bytes at all: the verdict of the loader, and what follows from it.
fn feed(file: &[u8], what: &dyn Fn() -> String, cx: &mut Cx) -> Result<bool, Fail> {
    cx.step();
    alloc::reset();
    let r = guarded(|| ScriptBundle::load(&mut Cursor::new(file)));
    let big = alloc::largest();
    let r = match r {
        Ok(r) => r,
        Err(p) => return fail(format!("load panics: {}", what()), format!("{}: loading panicked: {p}", what())),
    };
    if big > (1 << 20) + 64 * file.len() {
        return fail(
            format!("memory: {}", what()),
            format!("{}: loading {} bytes asked for {big} bytes of memory at once", what(), file.len()),
        );
    }
    cx.trace();
    let Ok(b) = r else { return Ok(false) };
    cx.state();
    let v = View::of(&b.pool).canonical();
    let out = match guarded(|| save(&b)) {
        Ok(r) => r.map_err(|e| Fail::from(format!("{}: accepted but {}", what(), e.detail)))?,
        Err(p) => return fail(format!("save panics: {}", what()), format!("{}: saving what was loaded panicked: {p}", what())),
    };
    let b2 = load(&out).map_err(|e| Fail::from(format!("{}: saved but {}", what(), e.detail)))?;
    let v2 = View::of(&b2.pool).canonical();
    if v != v2 {
        return fail(format!("content: {}", what()), format!("{}: accepted, but not the same after saving: {}", what(), v2.diff(&v)));
    }
    Ok(true)
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("damage: truncation at every length, every byte to every value, 32-bit words at every offset to boundary values, pairs in the tables; the largest single memory request is held to 1 MiB + 64 times the file");
    ctx.explore("truncated at every length", |ch, cx| {
        let k = ch.pick(5);
        let file = small(k).bytes();
        let n = ch.pick(file.len());
        let ok = feed(&file[..n], &|| format!("bundle {k} cut to {n} bytes"), cx)?;
        cx.sample(|| format!("bundle {k} cut to {n} of {} bytes: accepted={ok}", file.len()));
        // the content ends with its last definition: nothing shorter is whole
        let bodies: usize = small(k).defs.iter().skip(1).map(|d| d.val.bytes().len()).sum();
        ensure!(!ok || (bodies == 0 && n >= file.len()), "bundle {k} cut from {} to {n} bytes was accepted", file.len());
        Ok(())
    });
    ctx.explore("every byte, every value", |ch, cx| {
        let k = ch.pick(5);
        let file = small(k).bytes();
        let at = ch.pick(file.len());
        for v in 0..=255u8 {
            let mut f = file.clone();
            f[at] = v;
            feed(&f, &|| format!("bundle {k} with byte {at} = {v}"), cx)?;
        }
        cx.sample(|| format!("bundle {k}, byte {at} to every value"));
        Ok(())
    });
    ctx.explore("every word, boundary values", |ch, cx| {
        let k = ch.pick(5);
        let file = small(k).bytes();
        let at = ch.pick(file.len() - 3);
        let n = file.len() as u32;
        for v in [
            0u32, 1, 2, 0xff, 0x100, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000, 0x0fff_ffff, 0x1000_0000, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, u32::MAX, n, n - 1, n + 1, n / 2,
        ] {
            let mut f = file.clone();
            f[at..at + 4].copy_from_slice(&v.to_le_bytes());
            feed(&f, &|| format!("bundle {k} with word at {at} = {v:#x}"), cx)?;
        }
        Ok(())
    });
    ctx.explore("two header words", |ch, cx| {
        let k = 3 + ch.pick(2);
        let file = small(k).bytes();
        let a = 8 + ch.pick(24);
        let b = 8 + ch.pick(24);
        if b <= a {
            return Ok(());
        }
        for v in [0u32, 1, 3, 1000, u32::MAX] {
            for w in [0u32, 2, 5, 0x1_0000, u32::MAX] {
                let mut f = file.clone();
                f[4 * a..4 * a + 4].copy_from_slice(&v.to_le_bytes());
                f[4 * b..4 * b + 4].copy_from_slice(&w.to_le_bytes());
                feed(&f, &|| format!("bundle {k} with header words {a} = {v:#x}, {b} = {w:#x}"), cx)?;
            }
        }
        Ok(())
    });
    ctx.explore("two bytes of definitions", |ch, cx| {
        let k = 3 + ch.pick(2);
        let m = small(k);
        let file = m.bytes();
        let start = file.len() - m.defs.iter().skip(1).map(|d| d.val.bytes().len()).sum::<usize>();
        let a = start + ch.pick(file.len() - start);
        let vals: &[u8] = if th { &[0, 1, 2, 3, 5, 16, 23, 28, 51, 104, 127, 128, 254, 255] } else { &[0, 1, 5, 23, 51, 128, 255] };
        for b in a + 1..file.len() {
            for v in vals {
                for w in vals {
                    let mut f = file.clone();
                    f[a] = *v;
                    f[b] = *w;
                    feed(&f, &|| format!("bundle {k} with bytes {a} = {v}, {b} = {w}"), cx)?;
                }
            }
        }
        Ok(())
    });
    ctx.explore("short files", |ch, cx| {
        // every file of up to 3 bytes, and the magic followed by nothing much
        let n = ch.pick(4);
        let mut f = vec![];
        if n > 0 {
            f.push(ch.pick(256) as u8);
        }
        if n > 1 {
            f.push(*ch.of(&[0u8, b'E', b'D', 255]));
        }
        if n > 2 {
            f.push(*ch.of(&[0u8, b'D', 255]));
        }
        ensure!(!feed(&f, &|| format!("{f:?}"), cx)?, "{f:?} was accepted");
        let mut g = b"REDS".to_vec();
        g.extend_from_slice(&f);
        ensure!(!feed(&g, &|| format!("{g:?}"), cx)?, "{g:?} was accepted");
        Ok(())
    });
    ctx.explore("wrong magic", |ch, cx| {
        let mut f = small(1).bytes();
        let i = ch.pick(4);
        let v = ch.pick(256) as u8;
        let was = f[i];
        f[i] = v;
        let ok = feed(&f, &|| format!("magic byte {i} = {v}"), cx)?;
        ensure!(ok == (v == was), "magic byte {i} = {v}: accepted={ok}");
        Ok(())
    });
    ctx.explore("trailing bytes", |ch, cx| {
        let k = ch.pick(5);
        let m = small(k);
        let mut f = m.bytes();
        let n = *ch.of(&[1usize, 2, 100, 5000]);
        let b = *ch.of(&[0u8, 0xff]);
        f.extend(std::iter::repeat(b).take(n));
        ensure!(feed(&f, &|| format!("bundle {k} followed by {n} bytes"), cx)?, "bundle {k} followed by {n} bytes refused");
        Ok(())
    });
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// at most n bytes per call
    Short(usize),
    /// call k moves one byte only
    ShortAt(usize),
    /// interrupted before every call
    Interrupted,
    InterruptedAt(usize),
    /// call k fails
    FailAt(usize),
    /// every call from k on reports end of file / nothing written
    ZeroAt(usize),
    /// seek k fails
    SeekFailAt(usize),
}

struct Dev {
    inner: Cursor<Vec<u8>>,
    fault: Fault,
    calls: usize,
    seeks: usize,
    toggled: bool,
    hit: bool,
}

impl Dev {
    fn new(v: Vec<u8>, fault: Fault) -> Self {
        Dev { inner: Cursor::new(v), fault, calls: 0, seeks: 0, toggled: false, hit: false }
    }
    /// the number of bytes this call may move, or the error it gives
    fn gate(&mut self, want: usize) -> io::Result<usize> {
        let call = self.calls;
        let int = || Err(io::Error::from(io::ErrorKind::Interrupted));
        match self.fault {
            Fault::Interrupted => {
                self.toggled = !self.toggled;
                if self.toggled {
                    self.hit = true;
                    return int();
                }
            }
            Fault::InterruptedAt(k) if k == call && !self.toggled => {
                self.toggled = true;
                self.hit = true;
                return int();
            }
            _ => {}
        }
        self.calls += 1;
        match self.fault {
            Fault::Short(n) => {
                self.hit = true;
                Ok(want.min(n))
            }
            Fault::ShortAt(k) if k == call => {
                self.hit = true;
                Ok(want.min(1))
            }
            Fault::FailAt(k) if k == call => {
                self.hit = true;
                Err(io::Error::new(io::ErrorKind::Other, "injected"))
            }
            Fault::ZeroAt(k) if call >= k && want > 0 => {
                self.hit = true;
                Ok(0)
            }
            _ => Ok(want),
        }
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.inner.get_ref().len().saturating_sub(self.inner.position() as usize);
        let n = self.gate(buf.len().min(left))?;
        self.inner.read(&mut buf[..n])
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.gate(buf.len())?;
        self.inner.write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let k = self.seeks;
        self.seeks += 1;
        if self.fault == Fault::SeekFailAt(k) {
            self.hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        self.inner.seek(p)
    }
}

fn faults(calls: usize, seeks: usize, ch: &mut Chooser) -> Fault {
    match ch.pick(9) {
        0 => Fault::None,
        1 => Fault::Short(1 + ch.pick(9)),
        2 => Fault::Interrupted,
        3 => Fault::ShortAt(ch.pick(calls)),
        4 => Fault::InterruptedAt(ch.pick(calls)),
        5 => Fault::FailAt(ch.pick(calls)),
        6 => Fault::ZeroAt(ch.pick(calls)),
        7 => Fault::SeekFailAt(ch.pick(seeks.max(1))),
        _ => Fault::Short(*ch.of(&[16, 19, 20, 21, 63, 64, 103, 104, 105, 1000])),
    }
}

fn hard(f: Fault) -> bool {
    matches!(f, Fault::FailAt(_) | Fault::ZeroAt(_) | Fault::SeekFailAt(_))
}

fn bundles(k: usize) -> MBundle {
    match k {
        5 => {
            let mut b = full_bundle();
            for i in 0..3000 {
                b.strings.push(format!("string {i}"));
            }
            b
        }
        6 => full_bundle(),
        k => small(k),
    }
}

pub fn run10(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.assume("faults: one fault per run (a short, interrupted or failing call at every position), or the same fault at every call");
    let kinds = 7;
    // the number of calls depends on the implementation, so it is measured
    let measure: Vec<(usize, usize, usize, usize)> = (0..7)
        .map(|k| {
            let m = bundles(k);
            let mut d = Dev::new(m.bytes(), Fault::None);
            let b = guarded(|| ScriptBundle::load(&mut d)).ok().and_then(Result::ok);
            let Some(b) = b else { return (1, 1, 1, 1) };
            let mut o = Dev::new(vec![], Fault::None);
            let _ = guarded(|| b.save(&mut o));
            (d.calls.max(1), d.seeks.max(1), o.calls.max(1), o.seeks.max(1))
        })
        .collect();
    ctx.explore("loading", |ch, cx| {
        let k = ch.pick(kinds);
        let m = bundles(k);
        let f = faults(measure[k].0, measure[k].1, ch);
        cx.case(|| format!("bundle {k} {f:?}"));
        cx.sample(|| format!("bundle {k} {f:?}"));
        let mut d = Dev::new(m.bytes(), f);
        let r = ScriptBundle::load(&mut d);
        cx.transitions += d.calls as u64;
        match r {
            Ok(b) => {
                ensure!(!(hard(f) && d.hit), "bundle {k}: loaded although {f:?}");
                let got = View::of(&b.pool).canonical();
                let want = View::expected(&m);
                ensure!(got == want, "bundle {k} with {f:?}: {}", got.diff(&want));
            }
            Err(e) => ensure!(hard(f) && d.hit, "bundle {k} with {f:?}: {e}"),
        }
        cx.state();
        cx.trace();
        Ok(())
    });
    ctx.explore("saving", |ch, cx| {
        let k = ch.pick(kinds);
        let m = bundles(k);
        let f = faults(measure[k].2, measure[k].3, ch);
        cx.case(|| format!("bundle {k} {f:?}"));
        cx.sample(|| format!("bundle {k} {f:?}"));
        let b = load(&m.bytes())?;
        let mut d = Dev::new(vec![], f);
        let r = b.save(&mut d);
        cx.transitions += d.calls as u64;
        match r {
            Ok(()) => {
                ensure!(!(hard(f) && d.hit), "bundle {k}: saved although {f:?}");
                ensure!(d.inner.into_inner() == m.bytes(), "bundle {k} with {f:?}: other bytes were written");
            }
            Err(e) => {
                ensure!(hard(f) && d.hit, "bundle {k} with {f:?}: {e}");
                // the pool is not affected, a second attempt succeeds
                let again = save(&b)?;
                ensure!(again == m.bytes(), "bundle {k} after {f:?}: other bytes on the second attempt");
            }
        }
        cx.state();
        cx.trace();
        Ok(())
    });
    ctx.explore("position-keeping streams", |ch, cx| {
        // histories of reads and writes of various sizes through the wrapper, with short transfers
        let base = *ch.of(&[0u64, 5, 300]);
        let short = *ch.of(&[1usize, 3, 1000]);
        let write = ch.flag();
        let mut d = Dev::new(vec![7; 400], Fault::Short(short));
        d.inner.set_position(base);
        let seekable = ch.flag();
        let (mut at, mut so) = if seekable {
            (base as usize, StreamOffset::new_seekable(d).map_err(|e| Fail::from(e.to_string()))?)
        } else {
            (0, StreamOffset::new_zeroed(d))
        };
        for _ in 0..(if th { 5 } else { 4 }) {
            ensure!(so.offset() == at, "offset {} expected {at}", so.offset());
            let n = *ch.of(&[0usize, 1, 2, 4, 7]);
            let mut buf = vec![1u8; n];
            let k = if write { so.write(&buf) } else { so.read(&mut buf) }.map_err(|e| Fail::from(e.to_string()))?;
            at += k;
            cx.step();
        }
        ensure!(so.offset() == at, "offset {} expected {at}", so.offset());
        let d = so.into_inner();
        let moved = d.inner.position() - base;
        ensure!(moved as usize == at - if seekable { base as usize } else { 0 }, "moved {moved}");
        cx.state();
        cx.trace();
        Ok(())
    });
}
