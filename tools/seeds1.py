LOAD = '''
use std::io::Cursor;
use redscript::bundle::*;
use redscript::bytecode::*;
use redscript::definition::*;
use redscript::Ref;
#[allow(dead_code)]
pub fn predef() -> ScriptBundle {
    let bytes = std::fs::read("/repo/resources/predef.redscripts").unwrap();
    ScriptBundle::load(&mut Cursor::new(bytes)).unwrap()
}
#[allow(dead_code)]
pub fn bytes(b: &ScriptBundle) -> Vec<u8> {
    let mut out = Cursor::new(vec![]);
    b.save(&mut out).unwrap();
    out.into_inner()
}
#[allow(dead_code)]
pub fn reload(b: &ScriptBundle) -> ScriptBundle {
    ScriptBundle::load(&mut Cursor::new(bytes(b))).unwrap()
}
'''
SEEDS = [
dict(id='b01', property='C01', needs='two strings in a bundle that differ only in trailing white space',
 breaks='the strings share one stored copy, so one of them comes back without (or with) the white space',
 edits=[('core/src/bundle.rs', 'match dedup_map.entry(str.clone()) {', 'match dedup_map.entry(Ref::from(str.trim_end())) {'),
        ('core/src/bundle.rs', 'offsets.encode(str_map.get(string).unwrap())?;', 'offsets.encode(str_map.get(string.trim_end()).unwrap())?;')],
 main=LOAD + '''
fn main() {
    let mut b = predef();
    let i = b.pool.strings.add(Ref::from("hello"));
    let j = b.pool.strings.add(Ref::from("hello "));
    let c = reload(&b);
    assert_eq!(&*c.pool.strings.get(i).unwrap(), "hello");
    assert_eq!(&*c.pool.strings.get(j).unwrap(), "hello ");
}'''),
dict(id='b02', property='C02', needs='load, change a string table so that the string data keeps its size, save',
 breaks='the checksum of the string data stays that of the loaded file',
 edits=[('core/src/bundle.rs', '''let data = TableHeader::new(buffer.get_ref(), buffer.position() as u32, position);''',
 '''let mut data = TableHeader::new(buffer.get_ref(), buffer.position() as u32, position);
        if data.count == header.data.count && data.offset == header.data.offset && !self.strings.strings.is_empty() {
            // nothing was added, keep what we have
            data.hash = header.data.hash;
        }''')],
 main=LOAD + '''
fn crc(bytes: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in bytes {
        c ^= *b as u32;
        for _ in 0..8 { c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }; }
    }
    !c
}
fn main() {
    let mut b = predef();
    b.pool.strings.add(Ref::from("abcd"));
    let first = bytes(&b);
    // the same bundle with another string of the same length
    let mut c = ScriptBundle::load(&mut Cursor::new(first.clone())).unwrap();
    let mut names = predef();
    names.pool.strings.add(Ref::from("wxyz"));
    c.pool = names.pool;
    let out = bytes(&c);
    let word = |o: usize| u32::from_le_bytes(out[o..o + 4].try_into().unwrap());
    let (off, count, hash) = (word(32) as usize, word(36) as usize, word(40));
    assert_eq!(hash, crc(&out[off..off + count]), "checksum of the string data");
}'''),
dict(id='b03', property='C03', needs='a body that uses the fast last-index search on a static array',
 breaks='the instruction is read back as the slow variant',
 edits=[('core/src/bytecode.rs', '79 => Ok(Instr::StaticArrayFindLastFast(input.decode()?)),', '79 => Ok(Instr::StaticArrayFindLast(input.decode()?)),')],
 main=LOAD + '''
use redscript::decode::DecodeExt;
use redscript::encode::EncodeExt;
fn main() {
    let code = Code::new(vec![Instr::<Offset>::StaticArrayFindLastFast(PoolIndex::new(7)), Instr::Nop]);
    let mut out = vec![];
    out.encode(&code).unwrap();
    let back: Code<Offset> = Cursor::new(out).decode().unwrap();
    assert_eq!(code, back);
}'''),
dict(id='b04', property='C04', needs='a profiling record whose function name is not plain ASCII',
 breaks='the record is counted in characters, so every later position in the body is wrong',
 edits=[('core/src/bytecode.rs', 'Instr::StartProfiling(instr) => 5 + instr.0.len() as u16,', 'Instr::StartProfiling(instr) => 5 + instr.0.chars().count() as u16,')],
 main=LOAD + '''
use redscript::decode::DecodeExt;
fn main() {
    let name = "na\\u{ef}ve";
    let mut raw = vec![18u8];
    let op: Vec<u8> = (0..=255u8).filter(|op| {
        let mut r = vec![*op];
        r.extend((name.len() as u32).to_le_bytes());
        r.extend(name.as_bytes());
        r.push(1);
        matches!(std::panic::catch_unwind(|| Cursor::new(r).decode::<Instr<Offset>>().ok()), Ok(Some(Instr::StartProfiling(_))))
    }).collect();
    raw[0] = op[0];
    raw.extend((name.len() as u32).to_le_bytes());
    raw.extend(name.as_bytes());
    raw.push(1);
    let instr: Instr<Offset> = Cursor::new(raw).decode().unwrap();
    assert_eq!(instr.size() as usize, 1 + 4 + name.len() + 1);
}'''),
dict(id='b05', property='C05', needs='a labelled conditional expression: its second operand must lead to the exit',
 breaks='the exit distance is taken from the false branch instead of from the instruction',
 edits=[('core/src/bytecode.rs', '''            Instr::Conditional(false_, exit) => Instr::Conditional(
                targets[false_.index].relative(location),
                targets[exit.index].relative(location),
            ),''', '''            Instr::Conditional(false_, exit) => {
                let false_target = targets[false_.index];
                let exit_target = targets[exit.index];
                let base = if exit_target < false_target { false_target } else { location };
                Instr::Conditional(false_target.relative(location), exit_target.relative(base))
            }''')],
 main=LOAD + '''
fn main() {
    let i = Instr::<Label>::Conditional(Label { index: 0 }, Label { index: 1 });
    let at = Location::new(100);
    for (f, e) in [(150u16, 200u16), (200, 150), (20, 10)] {
        match i.clone().resolve_labels(at, &[Location::new(f), Location::new(e)]) {
            Instr::Conditional(a, b) => {
                assert_eq!(a.absolute(at).value, f);
                assert_eq!(b.absolute(at).value, e);
            }
            _ => panic!(),
        }
    }
}'''),
dict(id='b06', property='C06', needs='a function without parameters whose second parameter list is not empty',
 breaks='the has-parameters bit and the empty list that belongs to it are lost',
 edits=[('core/src/definition.rs', '.with_has_parameters(!self.parameters.is_empty() || !self.unk2.is_empty())', '.with_has_parameters(!self.parameters.is_empty())')],
 main=LOAD + '''
fn main() {
    let mut b = predef();
    let n = b.pool.names.add(Ref::from("f"));
    let fun = Function {
        visibility: Visibility::Public, flags: FunctionFlags::new().with_is_native(true).with_unk4(true), source: None, return_type: None, unk1: false,
        base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::EMPTY, unk2: vec![PoolIndex::new(3)],
    };
    let i = b.pool.add_definition::<Function>(Definition::function(n, PoolIndex::UNDEFINED, fun));
    let c = reload(&b);
    let f = c.pool.function(i).unwrap();
    assert_eq!(f.unk2.len(), 1);
    assert!(f.flags.has_parameters());
}'''),
dict(id='b07', property='C07', needs='a bundle whose string table holds a string twice, then a new string is added',
 breaks='the new string gets the index of another entry',
 edits=[('core/src/bundle.rs', 'let idx = PoolIndex::new(self.strings.len() as u32);', 'let idx = PoolIndex::new(self.mappings.len() as u32);')],
 main=LOAD + '''
fn main() {
    // two strings of equal length; make the second table entry point at the first string
    let mut b = predef();
    b.pool.resources.add(Ref::from("res1"));
    b.pool.resources.add(Ref::from("res2"));
    let mut raw = bytes(&b);
    let word = |raw: &[u8], o: usize| u32::from_le_bytes(raw[o..o + 4].try_into().unwrap()) as usize;
    let (off, count) = (word(&raw, 68), word(&raw, 72));
    assert!(count >= 2);
    let (a, z) = (off + 4 * (count - 2), off + 4 * (count - 1));
    let first = raw[a..a + 4].to_vec();
    raw[z..z + 4].copy_from_slice(&first);
    let mut c = ScriptBundle::load(&mut Cursor::new(raw)).unwrap();
    let i = c.pool.resources.add(Ref::from("fresh"));
    assert_eq!(&*c.pool.resources.get(i).unwrap(), "fresh");
}'''),
dict(id='b08', property='C08', needs='a mapping that contains a chain (a to b and b to c) and a method whose class is a',
 breaks='the owner of a method is mapped twice',
 edits=[('core/src/mapper.rs', '''                    def.parent = self.map_class.apply(def.parent.cast()).cast();
                    for instr in fun.code.as_mut() {''', '''                    let mapped = self.map_class.apply(def.parent.cast());
                    if fun.base_method.is_some() {
                        // overrides follow their class once it has moved
                        def.parent = self.map_class.apply(mapped).cast();
                    } else {
                        def.parent = mapped.cast();
                    }
                    for instr in fun.code.as_mut() {''')],
 main=LOAD + '''
use redscript::mapper::*;
fn main() {
    let mut p = ConstantPool::default();
    p.reserve::<Class>();
    let n = PoolIndex::new(0);
    let fun = Function {
        visibility: Visibility::Public, flags: FunctionFlags::new(), source: None, return_type: None, unk1: false,
        base_method: Some(PoolIndex::new(9)), parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::EMPTY, unk2: vec![],
    };
    let i = p.add_definition::<Function>(Definition::function(n, PoolIndex::new(5), fun));
    let m = MultiMapper::new([(PoolIndex::<Class>::new(5), PoolIndex::new(6)), (PoolIndex::new(6), PoolIndex::new(7))].into_iter().collect());
    PoolMapper::default().with_class_mapper(m).map(&mut p);
    assert_eq!(u32::from(p.definition(i).unwrap().parent), 6);
}'''),
dict(id='b09', property='C09', needs='a file whose definition table is damaged so that a string offset lies past the data',
 breaks='text that is not valid UTF-8 in the string data panics instead of being refused',
 edits=[('core/src/decode.rs', '''            buf.push(c);
        }
        String::from_utf8(buf).map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))''', '''            buf.push(c);
        }
        if buf.is_ascii() {
            return Ok(buf.iter().map(|b| *b as char).collect());
        }
        let valid = std::str::from_utf8(&buf).expect("strings are UTF-8");
        Ok(valid.to_owned())''')],
 main=LOAD + '''
fn main() {
    let mut b = predef();
    b.pool.strings.add(Ref::from("zzzzqqqq"));
    let mut raw = bytes(&b);
    let at = raw.windows(8).position(|w| w == b"zzzzqqqq").unwrap();
    raw[at] = 0xff;
    assert!(ScriptBundle::load(&mut Cursor::new(raw)).is_err());
}'''),
dict(id='b10', property='C10', needs='a stream that takes fewer bytes than offered while definitions are written',
 breaks='the positions of the definitions are counted from the bytes offered, not taken',
 edits=[('core/src/io.rs', 'self.offset += written;', 'self.offset += buf.len();')],
 main=LOAD + '''
struct Short(Cursor<Vec<u8>>);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(1); self.0.write(&b[..n]) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl std::io::Seek for Short { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    let mut b = predef();
    for i in 0..5 {
        b.pool.add_definition::<i64>(Definition::enum_value(PoolIndex::new(0), PoolIndex::UNDEFINED, i));
    }
    let full = bytes(&b);
    let mut s = Short(Cursor::new(vec![]));
    b.save(&mut s).unwrap();
    assert!(s.0.into_inner() == full, "short writes change the file");
}'''),
]
