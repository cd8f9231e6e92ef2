//! The instruction set as a table, written from the file format, independent of the
//! encoder and decoder under test: opcode, name, operands. Everything else about an
//! instruction (its bytes in the file, its size in the virtual machine) follows from
//! the operand kinds.
use redscript::bundle::PoolIndex;
use redscript::bytecode::{Instr, Offset};
use redscript::decode::Decode;
use redscript::encode::Encode;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    /// a pool index: four bytes in the file, eight in the virtual machine
    Idx,
    /// a string table index: four bytes in both
    StrIdx,
    /// a jump distance, stored relative to the end of the operand
    Off,
    /// the debugger record (19 bytes)
    Brk,
    /// the profiling record (length-prefixed name and a byte)
    Prof,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Val {
    /// integers of every width, floats as their bits, indices
    Int(i64),
    Bytes(Vec<u8>),
}

impl Val {
    pub fn int(&self) -> i64 {
        match self {
            Val::Int(i) => *i,
            Val::Bytes(_) => panic!("harness: not an int"),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct MInstr {
    pub op: u8,
    pub vals: Vec<Val>,
}

pub struct OpSpec {
    pub op: u8,
    pub name: &'static str,
    pub kinds: &'static [Kind],
}

trait Conv<T> {
    fn get(v: &Val) -> T;
    fn put(v: &T) -> Val;
}
pub struct K<const N: u8>;

macro_rules! int_conv {
    ($($k:literal $t:ty),*) => {$(
        impl Conv<$t> for K<$k> {
            fn get(v: &Val) -> $t { v.int() as $t }
            fn put(v: &$t) -> Val { Val::Int(*v as i64) }
        }
    )*};
}
int_conv!(0 i8, 1 i16, 2 i32, 3 i64, 4 u8, 5 u16, 6 u32, 7 u64);
impl Conv<f32> for K<8> {
    fn get(v: &Val) -> f32 {
        f32::from_bits(v.int() as u32)
    }
    fn put(v: &f32) -> Val {
        Val::Int(i64::from(v.to_bits()))
    }
}
impl Conv<f64> for K<9> {
    fn get(v: &Val) -> f64 {
        f64::from_bits(v.int() as u64)
    }
    fn put(v: &f64) -> Val {
        Val::Int(v.to_bits() as i64)
    }
}
impl<A> Conv<PoolIndex<A>> for K<10> {
    fn get(v: &Val) -> PoolIndex<A> {
        PoolIndex::new(v.int() as u32)
    }
    fn put(v: &PoolIndex<A>) -> Val {
        Val::Int(i64::from(u32::from(*v)))
    }
}
impl<A> Conv<PoolIndex<A>> for K<11> {
    fn get(v: &Val) -> PoolIndex<A> {
        PoolIndex::new(v.int() as u32)
    }
    fn put(v: &PoolIndex<A>) -> Val {
        Val::Int(i64::from(u32::from(*v)))
    }
}
impl Conv<Offset> for K<12> {
    fn get(v: &Val) -> Offset {
        Offset::new(v.int() as i16)
    }
    fn put(v: &Offset) -> Val {
        Val::Int(i64::from(v.value))
    }
}
fn via_bytes<T: Decode>(v: &Val) -> T {
    match v {
        Val::Bytes(b) => T::decode(&mut &b[..]).expect("harness: record"),
        Val::Int(_) => panic!("harness: not bytes"),
    }
}
fn to_bytes<T: Encode>(v: &T) -> Val {
    let mut b = vec![];
    v.encode(&mut b).expect("harness: record");
    Val::Bytes(b)
}
impl<T: Decode + Encode> Conv<Box<T>> for K<13> {
    fn get(v: &Val) -> Box<T> {
        Box::new(via_bytes(v))
    }
    fn put(v: &Box<T>) -> Val {
        to_bytes(v.as_ref())
    }
}
impl<T: Decode + Encode> Conv<Box<T>> for K<14> {
    fn get(v: &Val) -> Box<T> {
        Box::new(via_bytes(v))
    }
    fn put(v: &Box<T>) -> Val {
        to_bytes(v.as_ref())
    }
}

macro_rules! kn {
    (I8) => { 0 }; (I16) => { 1 }; (I32) => { 2 }; (I64) => { 3 };
    (U8) => { 4 }; (U16) => { 5 }; (U32) => { 6 }; (U64) => { 7 };
    (F32) => { 8 }; (F64) => { 9 }; (Idx) => { 10 }; (StrIdx) => { 11 }; (Off) => { 12 };
    (Brk) => { 13 }; (Prof) => { 14 };
}

macro_rules! ops {
    ($($op:literal $name:ident $(($($v:ident $k:ident),+))?;)*) => {
        pub const OPS: &[OpSpec] = &[$(OpSpec {
            op: $op, name: stringify!($name), kinds: &[$($(Kind::$k),+)?]
        }),*];

        pub fn build(m: &MInstr) -> Instr<Offset> {
            match m.op {
                $($op => {
                    #[allow(unused_mut, unused_variables)]
                    let mut it = m.vals.iter();
                    Instr::$name $(($(<K<{kn!($k)}> as Conv<_>>::get(it.next().expect("harness: operand"))),+))?
                })*
                // the label marker: it has no operand in the file
                23 => Instr::Target(Offset::new(0)),
                other => panic!("harness: no opcode {other}"),
            }
        }

        pub fn lower(i: &Instr<Offset>) -> MInstr {
            match i {
                $(Instr::$name $(($($v),+))? => MInstr {
                    op: $op,
                    vals: vec![$($(<K<{kn!($k)}> as Conv<_>>::put($v)),+)?],
                },)*
                Instr::Target(_) => MInstr { op: 23, vals: vec![] },
            }
        }
    };
}

ops! {
    0 Nop;
    1 Null;
    2 I32One;
    3 I32Zero;
    4 I8Const(a I8);
    5 I16Const(a I16);
    6 I32Const(a I32);
    7 I64Const(a I64);
    8 U8Const(a U8);
    9 U16Const(a U16);
    10 U32Const(a U32);
    11 U64Const(a U64);
    12 F32Const(a F32);
    13 F64Const(a F64);
    14 NameConst(a Idx);
    15 EnumConst(a Idx, b Idx);
    16 StringConst(a StrIdx);
    17 TweakDbIdConst(a Idx);
    18 ResourceConst(a Idx);
    19 TrueConst;
    20 FalseConst;
    21 Breakpoint(a Brk);
    22 Assign;
    24 Local(a Idx);
    25 Param(a Idx);
    26 ObjectField(a Idx);
    27 ExternalVar;
    28 Switch(a Idx, b Off);
    29 SwitchLabel(a Off, b Off);
    30 SwitchDefault;
    31 Jump(a Off);
    32 JumpIfFalse(a Off);
    33 Skip(a Off);
    34 Conditional(a Off, b Off);
    35 Construct(a U8, b Idx);
    36 InvokeStatic(a Off, b U16, c Idx, d U16);
    37 InvokeVirtual(a Off, b U16, c Idx, d U16);
    38 ParamEnd;
    39 Return;
    40 StructField(a Idx);
    41 Context(a Off);
    42 Equals(a Idx);
    43 RefStringEqualsString(a Idx);
    44 StringEqualsRefString(a Idx);
    45 NotEquals(a Idx);
    46 RefStringNotEqualsString(a Idx);
    47 StringNotEqualsRefString(a Idx);
    48 New(a Idx);
    49 Delete;
    50 This;
    51 StartProfiling(a Prof);
    52 ArrayClear(a Idx);
    53 ArraySize(a Idx);
    54 ArrayResize(a Idx);
    55 ArrayFindFirst(a Idx);
    56 ArrayFindFirstFast(a Idx);
    57 ArrayFindLast(a Idx);
    58 ArrayFindLastFast(a Idx);
    59 ArrayContains(a Idx);
    60 ArrayContainsFast(a Idx);
    61 ArrayCount(a Idx);
    62 ArrayCountFast(a Idx);
    63 ArrayPush(a Idx);
    64 ArrayPop(a Idx);
    65 ArrayInsert(a Idx);
    66 ArrayRemove(a Idx);
    67 ArrayRemoveFast(a Idx);
    68 ArrayGrow(a Idx);
    69 ArrayErase(a Idx);
    70 ArrayEraseFast(a Idx);
    71 ArrayLast(a Idx);
    72 ArrayElement(a Idx);
    73 ArraySort(a Idx);
    74 ArraySortByPredicate(a Idx);
    75 StaticArraySize(a Idx);
    76 StaticArrayFindFirst(a Idx);
    77 StaticArrayFindFirstFast(a Idx);
    78 StaticArrayFindLast(a Idx);
    79 StaticArrayFindLastFast(a Idx);
    80 StaticArrayContains(a Idx);
    81 StaticArrayContainsFast(a Idx);
    82 StaticArrayCount(a Idx);
    83 StaticArrayCountFast(a Idx);
    84 StaticArrayLast(a Idx);
    85 StaticArrayElement(a Idx);
    86 RefToBool;
    87 WeakRefToBool;
    88 EnumToI32(a Idx, b U8);
    89 I32ToEnum(a Idx, b U8);
    90 DynamicCast(a Idx, b U8);
    91 ToString(a Idx);
    92 ToVariant(a Idx);
    93 FromVariant(a Idx);
    94 VariantIsDefined;
    95 VariantIsRef;
    96 VariantIsArray;
    97 VariantTypeName;
    98 VariantToString;
    99 WeakRefToRef;
    100 RefToWeakRef;
    101 WeakRefNull;
    102 AsRef(a Idx);
    103 Deref(a Idx);
}

impl Kind {
    /// size in the virtual machine
    pub fn vm_size(self, v: &Val) -> usize {
        match self {
            Kind::I8 | Kind::U8 => 1,
            Kind::I16 | Kind::U16 | Kind::Off => 2,
            Kind::I32 | Kind::U32 | Kind::F32 | Kind::StrIdx => 4,
            Kind::I64 | Kind::U64 | Kind::F64 | Kind::Idx => 8,
            Kind::Brk | Kind::Prof => match v {
                Val::Bytes(b) => b.len(),
                Val::Int(_) => panic!("harness: record"),
            },
        }
    }
}

pub fn spec(op: u8) -> &'static OpSpec {
    OPS.iter().find(|s| s.op == op).expect("harness: opcode")
}

impl MInstr {
    pub fn new(op: u8, vals: Vec<Val>) -> Self {
        assert_eq!(spec(op).kinds.len(), vals.len());
        MInstr { op, vals }
    }

    pub fn ints(op: u8, vals: &[i64]) -> Self {
        Self::new(op, vals.iter().map(|v| Val::Int(*v)).collect())
    }

    pub fn vm_size(&self) -> usize {
        if self.op == 23 {
            return 0;
        }
        1 + spec(self.op)
            .kinds
            .iter()
            .zip(&self.vals)
            .map(|(k, v)| k.vm_size(v))
            .sum::<usize>()
    }

    /// The bytes in the file. A jump distance counts from the start of its instruction in
    /// memory; in the file it counts from the end of the operand, in virtual machine sizes.
    pub fn file_bytes(&self, out: &mut Vec<u8>) {
        out.push(self.op);
        if self.op == 23 {
            return;
        }
        let mut at = 1usize;
        for (k, v) in spec(self.op).kinds.iter().zip(&self.vals) {
            at += k.vm_size(v);
            match (k, v) {
                (Kind::Off, Val::Int(i)) => {
                    let stored = i.wrapping_sub(at as i64) as i16;
                    out.extend_from_slice(&stored.to_le_bytes());
                }
                (Kind::I8 | Kind::U8, Val::Int(i)) => out.push(*i as u8),
                (Kind::I16 | Kind::U16, Val::Int(i)) => out.extend_from_slice(&(*i as u16).to_le_bytes()),
                (Kind::I32 | Kind::U32 | Kind::F32 | Kind::Idx | Kind::StrIdx, Val::Int(i)) => {
                    out.extend_from_slice(&(*i as u32).to_le_bytes());
                }
                (Kind::I64 | Kind::U64 | Kind::F64, Val::Int(i)) => out.extend_from_slice(&i.to_le_bytes()),
                (Kind::Brk | Kind::Prof, Val::Bytes(b)) => out.extend_from_slice(b),
                _ => panic!("harness: operand kind"),
            }
        }
    }

    pub fn show(&self) -> String {
        if self.op == 23 {
            return "Target".into();
        }
        let v: Vec<String> = self
            .vals
            .iter()
            .map(|v| match v {
                Val::Int(i) => i.to_string(),
                Val::Bytes(b) => crate::util::hex(b),
            })
            .collect();
        format!("{}({})", spec(self.op).name, v.join(","))
    }
}

pub fn show_code(code: &[MInstr]) -> String {
    code.iter().map(MInstr::show).collect::<Vec<_>>().join(" ")
}

pub fn code_bytes(code: &[MInstr]) -> Vec<u8> {
    let size: usize = code.iter().map(MInstr::vm_size).sum();
    let mut out = (size as u32).to_le_bytes().to_vec();
    for i in code {
        i.file_bytes(&mut out);
    }
    out
}

pub fn brk(line: u16, start: u32, col: u16, len: u16, enabled: bool, pad: u64) -> Val {
    let mut b = line.to_le_bytes().to_vec();
    b.extend_from_slice(&start.to_le_bytes());
    b.extend_from_slice(&col.to_le_bytes());
    b.extend_from_slice(&len.to_le_bytes());
    b.push(u8::from(enabled));
    b.extend_from_slice(&pad.to_le_bytes());
    Val::Bytes(b)
}

pub fn prof(name: &str, enabled: u8) -> Val {
    let mut b = (name.len() as u32).to_le_bytes().to_vec();
    b.extend_from_slice(name.as_bytes());
    b.push(enabled);
    Val::Bytes(b)
}

/// boundary values of an operand kind
pub fn domain(k: Kind) -> Vec<Val> {
    let ints = |v: &[i64]| v.iter().map(|i| Val::Int(*i)).collect::<Vec<_>>();
    match k {
        Kind::I8 => (-128..=127).map(Val::Int).collect(),
        Kind::U8 => (0..=255).map(Val::Int).collect(),
        Kind::I16 => ints(&[0, 1, 2, -1, -2, 127, 128, 129, -128, -129, 255, 256, 257, -256, 0x1234, 0x7fff, 0x7ffe, -0x8000, -0x7fff]),
        Kind::Off => ints(&[
            0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 15, -1, -2, -3, -4, -5, -6, -11, -12, 127, 128, 129, 130, 131, 132, -125,
            -126, -127, -128, -129, 255, 256, 257, 258, 259, 260, 261, 266, 267, -256, 0x1234, -0x1234, 0x7fff, 0x7ffe, 0x7ff0,
            -0x8000, -0x7fff, -0x7ffd, -0x7ffb, -0x7ff5,
        ]),
        Kind::U16 => ints(&[0, 1, 2, 127, 128, 255, 256, 257, 0x1234, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff]),
        Kind::I32 => ints(&[
            0, 1, 2, -1, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 0x1234_5678,
            -0x1234_5678, i64::from(i32::MAX), i64::from(i32::MIN),
        ]),
        Kind::U32 | Kind::Idx | Kind::StrIdx => ints(&[
            0, 1, 2, 3, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0xff_ffff, 0x100_0000, 0x1234_5678,
            0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff,
        ]),
        Kind::I64 | Kind::U64 => ints(&[
            0,
            1,
            2,
            -1,
            -2,
            255,
            256,
            65535,
            65536,
            0x7fff_ffff,
            0x8000_0000,
            0xffff_ffff,
            0x1_0000_0000,
            0x1234_5678_9abc_def0,
            -0x1234_5678_9abc_def0,
            i64::MAX,
            i64::MIN,
        ]),
        Kind::F32 => [0.0f32, -0.0, 1.0, -1.0, 0.1, 1.5, 1e-40, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY]
            .iter()
            .map(|f| Val::Int(i64::from(f.to_bits())))
            .chain(ints(&[0x7fc0_0000, 0x7f80_0001, 0xffc0_1234, 0x1234_5678]))
            .collect(),
        Kind::F64 => [0.0f64, -0.0, 1.0, -1.0, 0.1, 1.5, 1e-310, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY]
            .iter()
            .map(|f| Val::Int(f.to_bits() as i64))
            .chain(ints(&[0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0x1234_5678_9abc_def0]))
            .collect(),
        Kind::Brk => {
            let mut v = vec![];
            for l in [0u16, 1, 0x1234, 0xffff] {
                for s in [0u32, 0x1234_5678, u32::MAX] {
                    for (c, n) in [(0u16, 0u16), (0x0102, 0x0304), (0xffff, 1), (1, 0xffff)] {
                        for e in [false, true] {
                            for p in [0u64, 0x0102_0304_0506_0708, u64::MAX] {
                                v.push(brk(l, s, c, n, e, p));
                            }
                        }
                    }
                }
            }
            v
        }
        Kind::Prof => {
            let mut v = vec![];
            for n in (0usize..=70).chain([127, 128, 255, 256, 257, 300, 1000, 65000]) {
                for e in [0u8, 1, 255] {
                    v.push(prof(&"abcdefghij".repeat(n / 10 + 1)[..n], e));
                }
            }
            v.push(prof("OnUpdate;Żółć", 1));
            v
        }
    }
}

/// a few values per kind
pub fn small_domain(k: Kind) -> Vec<Val> {
    match k {
        Kind::Brk => vec![brk(1, 2, 3, 4, true, 5)],
        Kind::Prof => vec![prof("", 1), prof("abc", 0)],
        Kind::Off => [3i64, 0, -7, 20].iter().map(|i| Val::Int(*i)).collect(),
        Kind::F32 => vec![Val::Int(i64::from(1.5f32.to_bits()))],
        Kind::F64 => vec![Val::Int(1.5f64.to_bits() as i64)],
        Kind::I8 | Kind::I16 | Kind::I32 | Kind::I64 => vec![Val::Int(-3), Val::Int(7)],
        _ => vec![Val::Int(2), Val::Int(200)],
    }
}

/// one representative of every opcode (except the label marker)
pub fn representatives() -> Vec<MInstr> {
    OPS.iter()
        .map(|s| MInstr::new(s.op, s.kinds.iter().map(|k| small_domain(*k)[0].clone()).collect()))
        .collect()
}
