//! A reference model of a script bundle: plain data, with a writer and a reader of the
//! file format written from the format's description, sharing no code with the library.
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::Code;
use redscript::definition::{
    AnyDefinition, Class, ClassFlags, Definition, Enum, Field, FieldFlags, Function, FunctionFlags, Local, LocalFlags,
    Parameter, ParameterFlags, Property, SourceFile, SourceReference, Type, Visibility,
};

use crate::ops::{self, MInstr};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct MBundle {
    pub version: u32,
    pub flags: u32,
    pub timestamp: [u8; 8],
    pub unk3: u32,
    pub chunks: u32,
    pub names: Vec<String>,
    pub tweakdb: Vec<String>,
    pub resources: Vec<String>,
    pub strings: Vec<String>,
    /// including the placeholder at index 0
    pub defs: Vec<MDef>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct MDef {
    pub name: u32,
    pub parent: u32,
    pub unk: [u8; 3],
    pub val: MVal,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum MType {
    Prim,
    Class,
    Ref(u32),
    WeakRef(u32),
    Array(u32),
    StaticArray(u32, u32),
    ScriptRef(u32),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct MFun {
    pub vis: u8,
    pub flags: u32,
    pub source: Option<(u32, u32)>,
    pub ret: Option<(u32, bool)>,
    pub base: Option<u32>,
    pub params: Vec<u32>,
    pub locals: Vec<u32>,
    pub operator: Option<u32>,
    pub cast: u8,
    pub code: Vec<MInstr>,
    pub unk2: Vec<u32>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct MClass {
    pub vis: u8,
    pub flags: u16,
    pub base: u32,
    pub functions: Vec<u32>,
    pub fields: Vec<u32>,
    pub overrides: Vec<u32>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct MField {
    pub vis: u8,
    pub type_: u32,
    pub flags: u16,
    pub hint: Option<String>,
    pub attributes: Vec<(String, String)>,
    pub defaults: Vec<(String, String)>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum MVal {
    Type(MType),
    Class(MClass),
    EnumValue(i64),
    Enum { flags: u8, size: u8, members: Vec<u32>, unk1: bool },
    Function(MFun),
    Param { type_: u32, flags: u8 },
    Local { type_: u32, flags: u8 },
    Field(MField),
    Source { id: u32, hash: u64, path: String },
}

pub mod ff {
    //! function flag bits
    pub const STATIC: u32 = 1;
    pub const EXEC: u32 = 1 << 1;
    pub const TIMER: u32 = 1 << 2;
    pub const FINAL: u32 = 1 << 3;
    pub const NATIVE: u32 = 1 << 4;
    pub const UNK1: u32 = 1 << 5;
    pub const CALLBACK: u32 = 1 << 6;
    pub const OPERATOR: u32 = 1 << 7;
    pub const RETURN: u32 = 1 << 8;
    pub const BASE: u32 = 1 << 9;
    pub const PARAMS: u32 = 1 << 10;
    pub const LOCALS: u32 = 1 << 11;
    pub const BODY: u32 = 1 << 12;
    pub const CAST: u32 = 1 << 13;
    pub const IMPLICIT_CAST: u32 = 1 << 14;
    pub const THREAD_SAFE: u32 = 1 << 18;
    pub const CONST: u32 = 1 << 19;
    pub const UNK2: u32 = 1 << 20;
    pub const UNK3: u32 = 1 << 21;
    pub const QUEST: u32 = 1 << 22;
    pub const UNK4: u32 = 1 << 23;
    pub const UNK5: u32 = 1 << 24;
    pub const UNK6: u32 = 1 << 25;
    pub const DERIVED: u32 = OPERATOR | RETURN | BASE | PARAMS | LOCALS | BODY;
}
pub mod cf {
    pub const NATIVE: u16 = 1;
    pub const ABSTRACT: u16 = 1 << 1;
    pub const FINAL: u16 = 1 << 2;
    pub const STRUCT: u16 = 1 << 3;
    pub const FUNCTIONS: u16 = 1 << 4;
    pub const FIELDS: u16 = 1 << 5;
    pub const IMPORT_ONLY: u16 = 1 << 6;
    pub const TEST_ONLY: u16 = 1 << 7;
    pub const OVERRIDES: u16 = 1 << 8;
    pub const DERIVED: u16 = FUNCTIONS | FIELDS | OVERRIDES;
}
pub mod fdf {
    pub const NATIVE: u16 = 1;
    pub const EDITABLE: u16 = 1 << 1;
    pub const INLINE: u16 = 1 << 2;
    pub const CONST: u16 = 1 << 3;
    pub const REPLICATED: u16 = 1 << 4;
    pub const HINT: u16 = 1 << 5;
    pub const INSTANCE_EDITABLE: u16 = 1 << 6;
    pub const HAS_DEFAULT: u16 = 1 << 7;
    pub const PERSISTENT: u16 = 1 << 8;
    pub const TEST_ONLY: u16 = 1 << 9;
    pub const BROWSABLE: u16 = 1 << 10;
}

impl MFun {
    pub fn empty() -> Self {
        MFun {
            vis: 0,
            flags: 0,
            source: Some((1, 0)),
            ret: None,
            base: None,
            params: vec![],
            locals: vec![],
            operator: None,
            cast: 0,
            code: vec![],
            unk2: vec![],
        }
    }
    /// flags as they are in the file: some are implied by the content
    pub fn file_flags(&self) -> u32 {
        let mut f = self.flags & !ff::DERIVED;
        let mut on = |c: bool, b: u32| {
            if c {
                f |= b;
            }
        };
        on(self.ret.is_some(), ff::RETURN);
        on(self.base.is_some(), ff::BASE);
        on(!self.params.is_empty() || !self.unk2.is_empty(), ff::PARAMS);
        on(!self.locals.is_empty(), ff::LOCALS);
        on(self.operator.is_some(), ff::OPERATOR);
        on(!self.code.is_empty(), ff::BODY);
        f
    }
}
impl MClass {
    pub fn file_flags(&self) -> u16 {
        let mut f = self.flags & !cf::DERIVED;
        if !self.functions.is_empty() {
            f |= cf::FUNCTIONS;
        }
        if !self.fields.is_empty() {
            f |= cf::FIELDS;
        }
        if !self.overrides.is_empty() {
            f |= cf::OVERRIDES;
        }
        f
    }
}
impl MField {
    pub fn file_flags(&self) -> u16 {
        (self.flags & !fdf::HINT) | if self.hint.is_some() { fdf::HINT } else { 0 }
    }
}

impl MDef {
    pub fn placeholder() -> Self {
        MDef {
            name: 0,
            parent: 0,
            unk: [0; 3],
            val: MVal::Type(MType::Prim),
        }
    }
    pub fn of(name: u32, parent: u32, val: MVal) -> Self {
        MDef {
            name,
            parent,
            unk: [0; 3],
            val,
        }
    }
    /// the same definition with the flags that follow from its content set accordingly
    pub fn canonical(mut self) -> Self {
        match &mut self.val {
            MVal::Class(c) => c.flags = c.file_flags(),
            MVal::Function(f) => f.flags = f.file_flags(),
            MVal::Field(f) => f.flags = f.file_flags(),
            _ => {}
        }
        self
    }
}

struct W(Vec<u8>);
impl W {
    fn u8(&mut self, v: u8) {
        self.0.push(v);
    }
    fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn u64(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn list(&mut self, v: &[u32]) {
        self.u32(v.len() as u32);
        for x in v {
            self.u32(*x);
        }
    }
    fn str16(&mut self, s: &str) {
        self.u16(u16::try_from(s.len()).expect("harness: long string"));
        self.0.extend_from_slice(s.as_bytes());
    }
    fn props(&mut self, p: &[(String, String)]) {
        self.u32(p.len() as u32);
        for (a, b) in p {
            self.str16(a);
            self.str16(b);
        }
    }
}

impl MVal {
    pub fn tag(&self) -> u8 {
        match self {
            MVal::Type(_) => 0,
            MVal::Class(_) => 1,
            MVal::EnumValue(_) => 2,
            MVal::Enum { .. } => 3,
            MVal::Function(_) => 5,
            MVal::Param { .. } => 6,
            MVal::Local { .. } => 7,
            MVal::Field(_) => 8,
            MVal::Source { .. } => 9,
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut w = W(vec![]);
        match self {
            MVal::Type(t) => match t {
                MType::Prim => w.u8(0),
                MType::Class => w.u8(1),
                MType::Ref(i) => {
                    w.u8(2);
                    w.u32(*i);
                }
                MType::WeakRef(i) => {
                    w.u8(3);
                    w.u32(*i);
                }
                MType::Array(i) => {
                    w.u8(4);
                    w.u32(*i);
                }
                MType::StaticArray(i, n) => {
                    w.u8(5);
                    w.u32(*i);
                    w.u32(*n);
                }
                MType::ScriptRef(i) => {
                    w.u8(6);
                    w.u32(*i);
                }
            },
            MVal::Class(c) => {
                w.u8(c.vis);
                w.u16(c.file_flags());
                w.u32(c.base);
                for l in [&c.functions, &c.fields, &c.overrides] {
                    if !l.is_empty() {
                        w.list(l);
                    }
                }
            }
            MVal::EnumValue(v) => w.u64(*v as u64),
            MVal::Enum {
                flags,
                size,
                members,
                unk1,
            } => {
                w.u8(*flags);
                w.u8(*size);
                w.list(members);
                w.u8(u8::from(*unk1));
            }
            MVal::Function(f) => {
                let flags = f.file_flags();
                w.u8(f.vis);
                w.u32(flags);
                if flags & ff::NATIVE == 0 {
                    let (file, line) = f.source.expect("harness: source");
                    w.u32(file);
                    w.u32(line);
                }
                if let Some((t, c)) = f.ret {
                    w.u32(t);
                    w.u8(u8::from(c));
                }
                if let Some(b) = f.base {
                    w.u32(b);
                }
                if flags & ff::PARAMS != 0 {
                    w.list(&f.params);
                }
                if flags & ff::LOCALS != 0 {
                    w.list(&f.locals);
                }
                if let Some(o) = f.operator {
                    w.u32(o);
                }
                if flags & ff::CAST != 0 {
                    w.u8(f.cast);
                }
                if flags & ff::BODY != 0 {
                    w.0.extend_from_slice(&ops::code_bytes(&f.code));
                }
                if flags & ff::UNK4 != 0 {
                    w.list(&f.unk2);
                }
            }
            MVal::Param { type_, flags } | MVal::Local { type_, flags } => {
                w.u32(*type_);
                w.u8(*flags);
            }
            MVal::Field(f) => {
                w.u8(f.vis);
                w.u32(f.type_);
                w.u16(f.file_flags());
                if let Some(h) = &f.hint {
                    w.str16(h);
                }
                w.props(&f.attributes);
                w.props(&f.defaults);
            }
            MVal::Source { id, hash, path } => {
                w.u32(*id);
                w.u64(*hash);
                w.str16(&path.replace('/', "\\"));
            }
        }
        w.0
    }
}

/// CRC-32 (IEEE), bit by bit
pub fn crc32(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let table = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = 0xffff_ffffu32;
    for b in data {
        c = table[((c ^ u32::from(*b)) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

pub const HEADER: usize = 104;

/// header: magic, version, flags, timestamp(8), unk3, hash, chunks, six (offset, count, hash)
pub fn header_bytes(b: &MBundle, hash: u32, tables: &[(u32, u32, u32); 6]) -> Vec<u8> {
    let mut w = W(vec![]);
    w.0.extend_from_slice(b"REDS");
    w.u32(b.version);
    w.u32(b.flags);
    w.0.extend_from_slice(&b.timestamp);
    w.u32(b.unk3);
    w.u32(hash);
    w.u32(b.chunks);
    for (o, c, h) in tables {
        w.u32(*o);
        w.u32(*c);
        w.u32(*h);
    }
    assert_eq!(w.0.len(), HEADER);
    w.0
}

impl MBundle {
    pub fn base() -> Self {
        MBundle {
            version: 14,
            flags: 0,
            timestamp: [1, 2, 3, 4, 5, 6, 7, 8],
            unk3: 0x0a0b_0c0d,
            chunks: 7,
            names: vec!["None".into()],
            tweakdb: vec![String::new()],
            resources: vec![String::new()],
            strings: vec![String::new()],
            defs: vec![MDef::placeholder()],
        }
    }

    pub fn name(&mut self, s: &str) -> u32 {
        intern(&mut self.names, s)
    }

    pub fn add(&mut self, d: MDef) -> u32 {
        self.defs.push(d);
        self.defs.len() as u32 - 1
    }

    /// The file as the library's writer is specified to lay it out.
    pub fn bytes(&self) -> Vec<u8> {
        let mut data: Vec<u8> = vec![];
        let mut at: std::collections::HashMap<&str, u32> = std::collections::HashMap::new();
        for s in self.names.iter().chain(&self.tweakdb).chain(&self.resources).chain(&self.strings) {
            if !at.contains_key(s.as_str()) {
                at.insert(s, data.len() as u32);
                data.extend_from_slice(s.as_bytes());
                data.push(0);
            }
        }
        let offs = |v: &Vec<String>| -> Vec<u8> { v.iter().flat_map(|s| at[s.as_str()].to_le_bytes()).collect() };
        let (n, t, r, s) = (offs(&self.names), offs(&self.tweakdb), offs(&self.resources), offs(&self.strings));
        let o_data = HEADER;
        let o_names = o_data + data.len();
        let o_tdb = o_names + n.len();
        let o_res = o_tdb + t.len();
        let o_defs = o_res + r.len();
        let o_strs = o_defs + 20 * self.defs.len();
        let o_body = o_strs + s.len();
        let mut heads = W(vec![]);
        let mut body: Vec<u8> = vec![];
        for (i, d) in self.defs.iter().enumerate() {
            if i == 0 {
                heads.0.extend_from_slice(&[0; 20]);
                continue;
            }
            let b = d.val.bytes();
            heads.u32(d.name);
            heads.u32(d.parent);
            heads.u32((o_body + body.len()) as u32);
            heads.u32(b.len() as u32);
            heads.u8(d.val.tag());
            for u in d.unk {
                heads.u8(u);
            }
            body.extend_from_slice(&b);
        }
        let tables = [
            (o_data as u32, data.len() as u32, crc32(&data)),
            (o_names as u32, self.names.len() as u32, crc32(&n)),
            (o_tdb as u32, self.tweakdb.len() as u32, crc32(&t)),
            (o_res as u32, self.resources.len() as u32, crc32(&r)),
            (o_defs as u32, self.defs.len() as u32, crc32(&heads.0)),
            (o_strs as u32, self.strings.len() as u32, crc32(&s)),
        ];
        let hash = crc32(&header_bytes(self, 0xDEAD_BEEF, &tables));
        let mut out = header_bytes(self, hash, &tables);
        for part in [&data, &n, &t, &r, &heads.0, &s, &body] {
            out.extend_from_slice(part);
        }
        out
    }
}

pub fn intern(v: &mut Vec<String>, s: &str) -> u32 {
    if let Some(i) = v.iter().position(|x| x == s) {
        return i as u32;
    }
    v.push(s.to_owned());
    v.len() as u32 - 1
}

// ---- the library's values as model values, and back ----

pub fn vis(v: u8) -> Visibility {
    match v {
        0 => Visibility::Public,
        1 => Visibility::Protected,
        _ => Visibility::Private,
    }
}

fn unvis(v: Visibility) -> u8 {
    match v {
        Visibility::Public => 0,
        Visibility::Protected => 1,
        Visibility::Private => 2,
    }
}

fn idx<A>(v: &[u32]) -> Vec<PoolIndex<A>> {
    v.iter().map(|i| PoolIndex::new(*i)).collect()
}
fn unidx<A>(v: &[PoolIndex<A>]) -> Vec<u32> {
    v.iter().map(|i| u32::from(*i)).collect()
}
fn props(v: &[(String, String)]) -> Vec<Property> {
    v.iter()
        .map(|(a, b)| Property {
            name: a.clone(),
            value: b.clone(),
        })
        .collect()
}
fn unprops(v: &[Property]) -> Vec<(String, String)> {
    v.iter().map(|p| (p.name.clone(), p.value.clone())).collect()
}

pub fn to_def(d: &MDef) -> Definition {
    let value = match &d.val {
        MVal::Type(t) => AnyDefinition::Type(match t {
            MType::Prim => Type::Prim,
            MType::Class => Type::Class,
            MType::Ref(i) => Type::Ref(PoolIndex::new(*i)),
            MType::WeakRef(i) => Type::WeakRef(PoolIndex::new(*i)),
            MType::Array(i) => Type::Array(PoolIndex::new(*i)),
            MType::StaticArray(i, n) => Type::StaticArray(PoolIndex::new(*i), *n),
            MType::ScriptRef(i) => Type::ScriptRef(PoolIndex::new(*i)),
        }),
        MVal::Class(c) => AnyDefinition::Class(Class {
            visibility: vis(c.vis),
            flags: ClassFlags::from_bytes(c.flags.to_le_bytes()),
            base: PoolIndex::new(c.base),
            functions: idx(&c.functions),
            fields: idx(&c.fields),
            overrides: idx(&c.overrides),
        }),
        MVal::EnumValue(v) => AnyDefinition::EnumValue(*v),
        MVal::Enum {
            flags,
            size,
            members,
            unk1,
        } => AnyDefinition::Enum(Enum {
            flags: *flags,
            size: *size,
            members: idx(members),
            unk1: *unk1,
        }),
        MVal::Function(f) => AnyDefinition::Function(Function {
            visibility: vis(f.vis),
            flags: FunctionFlags::from_bytes(f.flags.to_le_bytes()),
            source: f.source.map(|(file, line)| SourceReference {
                file: PoolIndex::new(file),
                line,
            }),
            return_type: f.ret.map(|(t, _)| PoolIndex::new(t)),
            unk1: f.ret.is_some_and(|(_, b)| b),
            base_method: f.base.map(PoolIndex::new),
            parameters: idx(&f.params),
            locals: idx(&f.locals),
            operator: f.operator,
            cast: f.cast,
            code: Code::new(f.code.iter().map(ops::build).collect()),
            unk2: idx(&f.unk2),
        }),
        MVal::Param { type_, flags } => AnyDefinition::Parameter(Parameter {
            type_: PoolIndex::new(*type_),
            flags: ParameterFlags::from_bytes([*flags]),
        }),
        MVal::Local { type_, flags } => AnyDefinition::Local(Local {
            type_: PoolIndex::new(*type_),
            flags: LocalFlags::from_bytes([*flags]),
        }),
        MVal::Field(f) => AnyDefinition::Field(Field {
            visibility: vis(f.vis),
            type_: PoolIndex::new(f.type_),
            flags: FieldFlags::from_bytes(f.flags.to_le_bytes()),
            hint: f.hint.clone(),
            attributes: props(&f.attributes),
            defaults: props(&f.defaults),
        }),
        MVal::Source { id, hash, path } => AnyDefinition::SourceFile(SourceFile {
            id: *id,
            path_hash: *hash,
            path: path.into(),
        }),
    };
    Definition {
        name: PoolIndex::new(d.name),
        parent: PoolIndex::new(d.parent),
        unk1: d.unk[0],
        unk2: d.unk[1],
        unk3: d.unk[2],
        value,
    }
}

pub fn from_def(d: &Definition) -> MDef {
    let val = match &d.value {
        AnyDefinition::Type(t) => MVal::Type(match t {
            Type::Prim => MType::Prim,
            Type::Class => MType::Class,
            Type::Ref(i) => MType::Ref((*i).into()),
            Type::WeakRef(i) => MType::WeakRef((*i).into()),
            Type::Array(i) => MType::Array((*i).into()),
            Type::StaticArray(i, n) => MType::StaticArray((*i).into(), *n),
            Type::ScriptRef(i) => MType::ScriptRef((*i).into()),
        }),
        AnyDefinition::Class(c) => MVal::Class(MClass {
            vis: unvis(c.visibility),
            flags: u16::from_le_bytes(c.flags.into_bytes()),
            base: c.base.into(),
            functions: unidx(&c.functions),
            fields: unidx(&c.fields),
            overrides: unidx(&c.overrides),
        }),
        AnyDefinition::EnumValue(v) => MVal::EnumValue(*v),
        AnyDefinition::Enum(e) => MVal::Enum {
            flags: e.flags,
            size: e.size,
            members: unidx(&e.members),
            unk1: e.unk1,
        },
        AnyDefinition::Function(f) => MVal::Function(MFun {
            vis: unvis(f.visibility),
            flags: u32::from_le_bytes(f.flags.into_bytes()),
            source: f.source.as_ref().map(|s| (s.file.into(), s.line)),
            ret: f.return_type.map(|t| (t.into(), f.unk1)),
            base: f.base_method.map(Into::into),
            params: unidx(&f.parameters),
            locals: unidx(&f.locals),
            operator: f.operator,
            cast: f.cast,
            code: f.code.as_ref().iter().map(ops::lower).collect(),
            unk2: unidx(&f.unk2),
        }),
        AnyDefinition::Parameter(p) => MVal::Param {
            type_: p.type_.into(),
            flags: p.flags.into_bytes()[0],
        },
        AnyDefinition::Local(p) => MVal::Local {
            type_: p.type_.into(),
            flags: p.flags.into_bytes()[0],
        },
        AnyDefinition::Field(f) => MVal::Field(MField {
            vis: unvis(f.visibility),
            type_: f.type_.into(),
            flags: u16::from_le_bytes(f.flags.into_bytes()),
            hint: f.hint.clone(),
            attributes: unprops(&f.attributes),
            defaults: unprops(&f.defaults),
        }),
        AnyDefinition::SourceFile(s) => MVal::Source {
            id: s.id,
            hash: s.path_hash,
            path: s.path.to_string_lossy().into_owned(),
        },
    };
    MDef {
        name: d.name.into(),
        parent: d.parent.into(),
        unk: [d.unk1, d.unk2, d.unk3],
        val,
    }
}

/// What a user can see of a pool.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct View {
    pub names: Vec<String>,
    pub tweakdb: Vec<String>,
    pub resources: Vec<String>,
    pub strings: Vec<String>,
    pub defs: Vec<(u32, MDef)>,
}

impl View {
    pub fn of(pool: &ConstantPool) -> View {
        macro_rules! all {
            ($t:expr) => {{
                let mut v = vec![];
                let mut i = 0u32;
                while let Ok(s) = $t.get(PoolIndex::new(i)) {
                    v.push(s.to_string());
                    i += 1;
                    // an empty name table still answers index 0
                }
                v
            }};
        }
        View {
            names: all!(pool.names),
            tweakdb: all!(pool.tweakdb_ids),
            resources: all!(pool.resources),
            strings: all!(pool.strings),
            defs: pool.definitions().map(|(i, d)| (i.into(), from_def(d))).collect(),
        }
    }

    pub fn canonical(mut self) -> View {
        for (_, d) in &mut self.defs {
            *d = d.clone().canonical();
        }
        self
    }

    /// what the model says should be visible
    pub fn expected(b: &MBundle) -> View {
        let mut names = b.names.clone();
        if names.is_empty() {
            names.push("None".into());
        } else {
            names[0] = "None".into();
        }
        View {
            names,
            tweakdb: b.tweakdb.clone(),
            resources: b.resources.clone(),
            strings: b.strings.clone(),
            defs: b
                .defs
                .iter()
                .enumerate()
                .skip(1)
                .map(|(i, d)| (i as u32, d.clone().canonical()))
                .collect(),
        }
    }

    pub fn diff(&self, other: &View) -> String {
        macro_rules! d {
            ($f:ident) => {
                if self.$f != other.$f {
                    let n = self.$f.iter().zip(&other.$f).position(|(a, b)| a != b);
                    return match n {
                        Some(i) => format!("{}[{i}]: {:?} vs {:?}", stringify!($f), self.$f[i], other.$f[i]),
                        None => format!("{}: {} entries vs {}", stringify!($f), self.$f.len(), other.$f.len()),
                    };
                }
            };
        }
        d!(names);
        d!(tweakdb);
        d!(resources);
        d!(strings);
        d!(defs);
        "equal".into()
    }
}
