//! A machine for compiled code, written from the meaning of the instructions: it checks the layout
//! of every body before it runs one, and the type of everything that is stored.
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Instr, Offset};
use redscript::definition::{AnyDefinition, Class, Function, Type};

use crate::lang::{array_op, index, operate, operate1, Base, Place, Stop, Store, Val, World};

type R<T> = Result<T, Stop>;

fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Bad(m.into()))
}

pub struct Body {
    pub instrs: Vec<Instr<Offset>>,
    pub pos: Vec<usize>,
    pub at: HashMap<usize, usize>,
    pub end: usize,
}

impl Body {
    fn to(&self, i: usize, off: &Offset) -> R<usize> {
        let p = self.pos[i] as i64 + i64::from(off.value);
        match self.at.get(&(p as usize)) {
            Some(i) => Ok(*i),
            None => bad(format!("an offset leads to {p}, inside an instruction or outside the code")),
        }
    }
}

pub struct Vm<'a> {
    pub pool: &'a ConstantPool,
    pub store: Store,
    pub world: &'a mut World,
    bodies: HashMap<u32, Rc<Body>>,
}

struct Frame {
    body: Rc<Body>,
    fun: PoolIndex<Function>,
    locals: HashMap<u32, usize>,
    params: HashMap<u32, Place>,
    this: Option<usize>,
}

/// number of operands of the instructions that take a fixed number
fn operands(i: &Instr<Offset>) -> Option<usize> {
    use Instr::*;
    Some(match i {
        Nop | Null | I32One | I32Zero | I8Const(_) | I16Const(_) | I32Const(_) | I64Const(_) | U8Const(_)
        | U16Const(_) | U32Const(_) | U64Const(_) | F32Const(_) | F64Const(_) | NameConst(_) | EnumConst(..)
        | StringConst(_) | TweakDbIdConst(_) | ResourceConst(_) | TrueConst | FalseConst | Local(_) | Param(_)
        | ObjectField(_) | New(_) | This | WeakRefNull => 0,
        StructField(_) | ArrayClear(_) | ArraySize(_) | ArrayPop(_) | ArrayLast(_) | RefToBool | WeakRefToBool
        | EnumToI32(..) | I32ToEnum(..) | DynamicCast(..) | ToString(_) | ToVariant(_) | FromVariant(_)
        | VariantIsDefined | VariantIsRef | VariantIsArray | VariantTypeName | VariantToString | WeakRefToRef
        | RefToWeakRef | AsRef(_) | Deref(_) | Return | ArraySort(_) => 1,
        Assign | Equals(_) | NotEquals(_) | ArrayResize(_) | ArrayFindFirst(_) | ArrayFindLast(_)
        | ArrayContains(_) | ArrayCount(_) | ArrayPush(_) | ArrayRemove(_) | ArrayGrow(_) | ArrayErase(_)
        | ArrayElement(_) => 2,
        ArrayInsert(_) => 3,
        Construct(n, _) => usize::from(*n),
        _ => return None,
    })
}

impl<'a> Vm<'a> {
    pub fn new(pool: &'a ConstantPool, world: &'a mut World) -> Self {
        Vm { pool, store: Store::default(), world, bodies: HashMap::new() }
    }

    pub fn find(&self, class: Option<&str>, name: &str) -> Option<PoolIndex<Function>> {
        self.pool.definitions().find_map(|(i, d)| match &d.value {
            AnyDefinition::Function(_) => {
                let n = self.pool.names.get(d.name).ok()?;
                let parent = if d.parent.is_undefined() { None } else { self.pool.def_name(d.parent).ok() };
                (n.split(';').next() == Some(name) && parent.as_deref() == class).then(|| i.cast())
            }
            _ => None,
        })
    }

    fn body(&mut self, f: PoolIndex<Function>) -> R<Rc<Body>> {
        if let Some(b) = self.bodies.get(&u32::from(f)) {
            return Ok(b.clone());
        }
        let b = Rc::new(layout(self.pool, f)?);
        self.bodies.insert(f.into(), b.clone());
        Ok(b)
    }

    /// checks the layout of every body in the pool
    pub fn verify(pool: &ConstantPool) -> R<()> {
        for (i, d) in pool.definitions() {
            if matches!(&d.value, AnyDefinition::Function(f) if !f.code.is_empty()) {
                layout(pool, i.cast()).map_err(|e| match e {
                    Stop::Bad(m) => Stop::Bad(format!("{}: {m}", pool.def_name(i).map(|n| n.to_string()).unwrap_or_default())),
                    s => s,
                })?;
            }
        }
        Ok(())
    }

    fn name(&self, i: PoolIndex<impl Sized>) -> String {
        self.pool.def_name(i).map_or_else(|_| "?".into(), |n| n.to_string())
    }

    fn is_a(&self, class: &str, of: &str) -> bool {
        let mut c = self.class_by_name(class);
        while let Some(i) = c {
            if self.name(i) == of {
                return true;
            }
            let b = match self.pool.class(i) {
                Ok(c) => c.base,
                Err(_) => return false,
            };
            c = (!b.is_undefined()).then_some(b);
        }
        false
    }

    fn class_by_name(&self, n: &str) -> Option<PoolIndex<Class>> {
        self.pool.definitions().find_map(|(i, d)| {
            (matches!(d.value, AnyDefinition::Class(_)) && self.pool.names.get(d.name).ok()?.as_ref() == n).then(|| i.cast())
        })
    }

    /// whether a value may be stored where a type is expected
    fn fits(&self, v: &Val, t: PoolIndex<Type>) -> bool {
        if *v == Val::Unit {
            return true;
        }
        let Ok(ty) = self.pool.type_(t) else { return false };
        let name = self.name(t);
        match (ty, v) {
            (Type::Prim, v) => matches!(
                (name.as_str(), v),
                ("Int32", Val::Int(_))
                    | ("Bool", Val::Bool(_))
                    | ("String", Val::Str(_))
                    | ("Float", Val::Float(_))
                    | ("Double", Val::Double(_))
                    | ("Int64", Val::I64(_))
                    | ("Uint32", Val::U32(_))
                    | ("Uint64", Val::U64(_))
                    | ("CName", Val::Name(_))
                    | ("Variant", Val::Variant(_))
            ),
            (Type::Class, Val::Struct(n, _) | Val::Enum(n, _)) => **n == *name,
            (Type::Ref(_), Val::Null) | (Type::WeakRef(_), Val::WNull) => true,
            (Type::Ref(c), Val::Obj(o)) | (Type::WeakRef(c), Val::WObj(o)) => {
                self.is_a(&self.store.objs[*o].0, &self.name(*c))
            }
            (Type::Array(e), Val::Arr(vs)) => vs.iter().all(|v| self.fits(v, *e)),
            (Type::ScriptRef(e), Val::SRef(v)) => self.fits(v, *e),
            _ => false,
        }
    }

    fn default(&self, t: PoolIndex<Type>) -> Val {
        let name = self.name(t);
        match self.pool.type_(t) {
            Ok(Type::Prim) => match name.as_str() {
                "Int32" => Val::Int(0),
                "Bool" => Val::Bool(false),
                "String" => Val::Str(Rc::from("")),
                "Float" => Val::Float(0.0),
                "Double" => Val::Double(0.0),
                "Int64" => Val::I64(0),
                "Uint32" => Val::U32(0),
                "Uint64" => Val::U64(0),
                "CName" => Val::Name(Rc::from("")),
                _ => Val::Unit,
            },
            Ok(Type::Ref(_)) => Val::Null,
            Ok(Type::WeakRef(_)) => Val::WNull,
            Ok(Type::Array(_)) => Val::Arr(vec![]),
            Ok(Type::Class) => {
                let is_enum = self.pool.definitions().any(|(_, d)| {
                    matches!(d.value, AnyDefinition::Enum(_)) && self.pool.names.get(d.name).is_ok_and(|n| *n == *name)
                });
                if is_enum {
                    Val::Enum(Rc::from(name), 0)
                } else {
                    match self.class_by_name(&name) {
                        Some(c) => self.blank(c),
                        None => Val::Unit,
                    }
                }
            }
            _ => Val::Unit,
        }
    }

    fn blank(&self, c: PoolIndex<Class>) -> Val {
        let fields = &self.pool.class(c).expect("class").fields;
        let vs = fields.iter().map(|f| self.default(self.pool.field(*f).expect("field").type_)).collect();
        Val::Struct(Rc::from(self.name(c)), vs)
    }

    pub fn call(&mut self, f: PoolIndex<Function>, this: Option<usize>, args: Vec<Place>) -> R<Val> {
        self.world.burn()?;
        let fun = match self.pool.function(f) {
            Ok(f) => f,
            Err(e) => return bad(format!("calls {f:?}: {e}")),
        };
        let name = self.name(f);
        if fun.flags.is_native() {
            let vs: Vec<Val> = args.iter().map(|p| self.store.get(p).unwrap_or(Val::Unit)).collect();
            return self.native(&name, &args, &vs);
        }
        let body = self.body(f)?;
        if body.instrs.is_empty() {
            return bad(format!("calls {name}, which has no code"));
        }
        let mut fr = Frame { body, fun: f, locals: HashMap::new(), params: HashMap::new(), this };
        for (p, a) in fun.parameters.iter().zip(args) {
            let t = self.pool.parameter(*p).map_err(|e| Stop::Bad(e.to_string()))?.type_;
            let v = self.store.get(&a).unwrap_or(Val::Unit);
            if !self.fits(&v, t) {
                return bad(format!("{name}: {v:?} is passed for a {}", self.name(t)));
            }
            fr.params.insert((*p).into(), a);
        }
        for l in &fun.locals {
            let t = self.pool.local(*l).map_err(|e| Stop::Bad(e.to_string()))?.type_;
            let v = if matches!(self.pool.type_(t), Ok(Type::Array(_))) { Val::Arr(vec![]) } else { Val::Uninit };
            let c = self.store.cell(v);
            fr.locals.insert((*l).into(), c);
        }
        let v = self.run(&mut fr)?;
        match fun.return_type {
            Some(t) if !self.fits(&v, t) => bad(format!("{name}: returns {v:?} for a {}", self.name(t))),
            None if v != Val::Unit => bad(format!("{name}: returns {v:?} but has no result")),
            _ => Ok(v),
        }
    }

    fn native(&mut self, name: &str, places: &[Place], vs: &[Val]) -> R<Val> {
        let base = name.split(';').next().unwrap();
        if let Some(r) = self.world.probe(base, vs) {
            return r;
        }
        let op = match base {
            "OperatorAdd" | "OperatorAssignAdd" => "+",
            "OperatorSubtract" | "OperatorAssignSubtract" => "-",
            "OperatorMultiply" | "OperatorAssignMultiply" => "*",
            "OperatorDivide" | "OperatorAssignDivide" => "/",
            "OperatorModulo" => "%",
            "OperatorOr" | "OperatorAssignOr" => "|",
            "OperatorAnd" | "OperatorAssignAnd" => "&",
            "OperatorXor" => "^",
            "OperatorEqual" => "==",
            "OperatorNotEqual" => "!=",
            "OperatorLess" => "<",
            "OperatorLessEqual" => "<=",
            "OperatorGreater" => ">",
            "OperatorGreaterEqual" => ">=",
            "OperatorLogicNot" => "!",
            "OperatorNeg" => "-",
            "OperatorBitNot" => "~",
            _ => return bad(format!("{name} is not a native of the prelude")),
        };
        // the signature decides what is accepted
        let params = name.split(';').nth(1).unwrap_or("");
        let r = match vs {
            [a] => operate1(op, a),
            [Val::SRef(a), Val::SRef(b)] if params == "Script_RefStringScript_RefString" => operate(op, a, b),
            [a @ Val::Int(_), b] if params == "Int32Int32" || params == "OutInt32Int32" => operate(op, a, b),
            [a @ Val::Float(_), b] if params == "FloatFloat" || params == "OutFloatFloat" => operate(op, a, b),
            [a @ Val::Bool(_), b] if params == "BoolBool" => operate(op, a, b),
            [a @ Val::Str(_), b] if params == "StringString" || params == "OutStringString" => operate(op, a, b),
            [a @ Val::Name(_), b] if params == "CNameCName" => operate(op, a, b),
            // what is not there counts as zero
            [Val::Unit, b] if params == "OutInt32Int32" => operate(op, &Val::Int(0), b),
            [Val::Unit, _] if base.starts_with("OperatorAssign") => Some(Val::Unit),
            _ => None,
        };
        let Some(v) = r else { return bad(format!("{name} is called with {vs:?}")) };
        if base.starts_with("OperatorAssign") && v != Val::Unit {
            if let Some(slot) = self.store.slot(&places[0]) {
                *slot = v.clone();
            }
        }
        Ok(v)
    }

    fn run(&mut self, fr: &mut Frame) -> R<Val> {
        let mut ip = 0;
        let mut scrutinee: Option<Val> = None;
        let mut from_switch = false;
        loop {
            self.world.burn()?;
            if ip >= fr.body.instrs.len() {
                return Ok(match self.pool.function(fr.fun).ok().and_then(|f| f.return_type) {
                    Some(t) => self.default(t),
                    None => Val::Unit,
                });
            }
            let instr = fr.body.instrs[ip].clone();
            let was = std::mem::take(&mut from_switch);
            match instr {
                Instr::Nop | Instr::SwitchDefault => ip += 1,
                Instr::Jump(o) => ip = fr.body.to(ip, &o)?,
                Instr::JumpIfFalse(o) => {
                    let (v, n) = self.eval(fr, ip + 1)?;
                    match v {
                        Val::Bool(true) => ip = n,
                        Val::Bool(false) => ip = fr.body.to(ip, &o)?,
                        v => return bad(format!("{v:?} as a condition")),
                    }
                }
                Instr::Switch(t, o) => {
                    let (v, _) = self.eval(fr, ip + 1)?;
                    if !self.fits(&v, t) {
                        return bad(format!("switch over {v:?} as {}", self.name(t)));
                    }
                    scrutinee = Some(v);
                    from_switch = true;
                    ip = fr.body.to(ip, &o)?;
                }
                Instr::SwitchLabel(next, body) => {
                    if !was {
                        return bad("the body of a case runs into the label of another");
                    }
                    let (m, _) = self.eval(fr, ip + 1)?;
                    if Some(m.canon()) == scrutinee.as_ref().map(Val::canon) {
                        ip = fr.body.to(ip, &body)?;
                    } else {
                        from_switch = true;
                        ip = fr.body.to(ip, &next)?;
                    }
                }
                Instr::Return => {
                    if matches!(fr.body.instrs.get(ip + 1), Some(Instr::Nop)) {
                        return Ok(Val::Unit);
                    }
                    return Ok(self.eval(fr, ip + 1)?.0);
                }
                _ => ip = self.eval(fr, ip)?.1,
            }
        }
    }

    /// the place an expression stands for, with what may be stored there
    fn place(&mut self, fr: &mut Frame, ip: usize) -> R<(Place, Option<PoolIndex<Type>>, usize)> {
        self.world.burn()?;
        let instr = fr.body.instrs[ip].clone();
        Ok(match instr {
            Instr::Local(l) => {
                let Some(c) = fr.locals.get(&u32::from(l)) else {
                    return bad(format!("uses {}, which is no local of {}", self.name(l), self.name(fr.fun)));
                };
                let t = self.pool.local(l).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                (Place { base: Base::Cell(*c), path: vec![] }, Some(t), ip + 1)
            }
            Instr::Param(p) => {
                let Some(c) = fr.params.get(&u32::from(p)) else {
                    return bad(format!("uses {}, which is no parameter of {}", self.name(p), self.name(fr.fun)));
                };
                let t = self.pool.parameter(p).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                (c.clone(), Some(t), ip + 1)
            }
            Instr::Context(exit) => {
                let exit = fr.body.to(ip, &exit)?;
                let (v, n) = self.eval(fr, ip + 1)?;
                let Instr::ObjectField(f) = fr.body.instrs[n].clone() else {
                    let (v, n) = self.member(fr, v, n, exit)?;
                    let c = self.store.cell(v);
                    return Ok((Place { base: Base::Cell(c), path: vec![] }, None, n));
                };
                let t = self.pool.field(f).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                match v {
                    Val::Obj(o) => {
                        let owner = self.pool.definition(f).map_err(|e| Stop::Bad(e.to_string()))?.parent;
                        let (cl, of) = (self.store.objs[o].0.clone(), self.name(owner));
                        if !self.is_a(&cl, &of) {
                            return bad(format!("field {} of {of} in a {cl}", self.name(f)));
                        }
                        (Place { base: Base::Obj(o, Rc::from(self.name(f))), path: vec![] }, Some(t), n + 1)
                    }
                    Val::Null | Val::Unit => (Place { base: Base::Nowhere, path: vec![] }, Some(t), exit),
                    v => return bad(format!("field {} of {v:?}", self.name(f))),
                }
            }
            Instr::StructField(f) => {
                let (mut p, _, n) = self.place(fr, ip + 1)?;
                let t = self.pool.field(f).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                if p.base == Base::Nowhere {
                    return Ok((p, Some(t), n));
                }
                let owner: PoolIndex<Class> = self.pool.definition(f).map_err(|e| Stop::Bad(e.to_string()))?.parent.cast();
                match self.store.get(&p) {
                    Some(Val::Struct(name, _)) if *name == *self.name(owner) => {}
                    v => return bad(format!("field {} of {v:?}", self.name(f))),
                }
                let i = self.pool.class(owner).ok().and_then(|c| c.fields.iter().position(|x| *x == f));
                match i {
                    Some(i) => p.path.push(i),
                    None => return bad("a field that its structure does not list"),
                }
                (p, Some(t), n)
            }
            Instr::ArrayElement(t) => {
                let (mut p, _, n) = self.place(fr, ip + 1)?;
                let (i, n) = self.eval(fr, n)?;
                let elem = match self.pool.type_(t) {
                    Ok(Type::Array(e)) => *e,
                    _ => return bad("an element of no array"),
                };
                if p.base == Base::Nowhere {
                    return Ok((p, Some(elem), n));
                }
                if let Some(v) = self.store.get(&p) {
                    if !self.fits(&v, t) {
                        return bad(format!("{v:?} as {}", self.name(t)));
                    }
                }
                match index(&i) {
                    Some(i) => p.path.push(i),
                    None if matches!(i, Val::Int(_)) => p.path.push(usize::MAX),
                    None => return bad(format!("{i:?} as an index")),
                }
                (p, Some(elem), n)
            }
            _ => {
                let (v, n) = self.eval(fr, ip)?;
                let c = self.store.cell(v);
                (Place { base: Base::Cell(c), path: vec![] }, None, n)
            }
        })
    }

    fn member(&mut self, fr: &mut Frame, obj: Val, ip: usize, exit: usize) -> R<(Val, usize)> {
        match (obj, fr.body.instrs[ip].clone()) {
            (Val::Null | Val::Unit, _) => Ok((Val::Unit, exit)),
            (Val::Obj(o), Instr::InvokeStatic(e, _, f, flags)) => self.invoke(fr, ip, &e, f, flags, Some(o)),
            (Val::Obj(o), Instr::InvokeVirtual(e, _, n, flags)) => {
                let f = self.dispatch(o, n)?;
                self.invoke(fr, ip, &e, f, flags, Some(o))
            }
            (v, i) => bad(format!("{i:?} in the context of {v:?}")),
        }
    }

    fn dispatch(&self, o: usize, n: PoolIndex<redscript::bundle::CName>) -> R<PoolIndex<Function>> {
        let n = self.pool.names.get(n).map_err(|e| Stop::Bad(e.to_string()))?;
        let cl = self.store.objs[o].0.clone();
        let mut c = self.class_by_name(&cl);
        while let Some(i) = c {
            let class = self.pool.class(i).map_err(|e| Stop::Bad(e.to_string()))?;
            for f in &class.functions {
                if self.name(*f) == *n {
                    return Ok(*f);
                }
            }
            c = (!class.base.is_undefined()).then_some(class.base);
        }
        bad(format!("no {n} in a {cl}"))
    }

    fn invoke(
        &mut self,
        fr: &mut Frame,
        ip: usize,
        exit: &Offset,
        f: PoolIndex<Function>,
        flags: u16,
        obj: Option<usize>,
    ) -> R<(Val, usize)> {
        let exit = fr.body.to(ip, exit)?;
        let Ok(fun) = self.pool.function(f) else { return bad(format!("calls {f:?}, which is no function")) };
        let fname = self.name(f);
        let mut n = ip + 1;
        let mut args = vec![];
        for (k, p) in fun.parameters.iter().enumerate() {
            let par = self.pool.parameter(*p).map_err(|e| Stop::Bad(e.to_string()))?;
            if let Instr::AsRef(_) = &fr.body.instrs[n] {
                if k < 16 && (flags >> k & 1 == 1) != temporary(&fr.body, n + 1) {
                    return bad(format!("{fname}: argument {k} is flagged {} for a reference", flags >> k & 1));
                }
            } else if k < 16 && flags >> k & 1 == 1 && !matches!(self.pool.type_(par.type_), Ok(Type::ScriptRef(_))) {
                return bad(format!("{fname}: argument {k} is flagged but no reference"));
            }
            match fr.body.instrs[n].clone() {
                Instr::ParamEnd => return bad(format!("{fname}: too few arguments")),
                Instr::Nop => {
                    if !par.flags.is_optional() {
                        return bad(format!("{fname}: argument {k} is left out"));
                    }
                    let c = self.store.cell(self.default(par.type_));
                    args.push(Place { base: Base::Cell(c), path: vec![] });
                    n += 1;
                }
                Instr::Skip(o) => {
                    if !par.flags.is_short_circuit() {
                        return bad(format!("{fname}: argument {k} can be skipped"));
                    }
                    let to = fr.body.to(n, &o)?;
                    let decided = match (fname.split(';').next(), args.first().and_then(|p| self.store.get(p))) {
                        (Some("OperatorLogicAnd"), Some(Val::Bool(b))) => !b,
                        (Some("OperatorLogicOr"), Some(Val::Bool(b))) => b,
                        (_, v) => return bad(format!("{fname}: decides by {v:?}")),
                    };
                    if decided {
                        let v = self.store.get(&args[0]).unwrap();
                        args.push(args[0].clone());
                        // the value of the whole is known
                        if !matches!(fr.body.instrs[to], Instr::ParamEnd) {
                            return bad("a skipped argument is not the last");
                        }
                        return Ok((v, exit));
                    }
                    let (v, m) = self.eval(fr, n + 1)?;
                    return match v {
                        Val::Bool(_) if matches!(fr.body.instrs[m], Instr::ParamEnd) => Ok((v, exit)),
                        v => bad(format!("{fname} of {v:?}")),
                    };
                }
                _ if par.flags.is_short_circuit() => return bad(format!("{fname}: argument {k} is always evaluated")),
                _ if par.flags.is_out() => {
                    let (p, t, m) = self.place(fr, n)?;
                    if let Some(t) = t {
                        if self.name(t) != self.name(par.type_) {
                            return bad(format!("{fname}: a {} for an out {}", self.name(t), self.name(par.type_)));
                        }
                    }
                    // storing to it counts as its first store
                    if let Some(slot) = self.store.slot(&p) {
                        if *slot == Val::Uninit {
                            return bad("passes a local before anything was stored in it");
                        }
                    }
                    args.push(p);
                    n = m;
                }
                _ => {
                    let (v, m) = self.eval(fr, n)?;
                    let c = self.store.cell(v);
                    args.push(Place { base: Base::Cell(c), path: vec![] });
                    n = m;
                }
            }
        }
        if !matches!(fr.body.instrs[n], Instr::ParamEnd) {
            return bad(format!("{fname}: too many arguments"));
        }
        if n + 1 != exit {
            return bad(format!("{fname}: the end of the call is wrong"));
        }
        let this = if fun.flags.is_static() { None } else { obj.or(fr.this) };
        if !fun.flags.is_static() && !fun.flags.is_native() {
            let Some(o) = this else { return bad(format!("{fname}: no object to call it on")) };
            let owner = self.pool.definition(f).map_err(|e| Stop::Bad(e.to_string()))?.parent;
            let (cl, of) = (self.store.objs[o].0.clone(), self.name(owner));
            if !self.is_a(&cl, &of) {
                return bad(format!("calls {fname} of {of} on a {cl}"));
            }
        }
        let v = self.call(f, this, args)?;
        Ok((v, exit))
    }

    fn eval(&mut self, fr: &mut Frame, ip: usize) -> R<(Val, usize)> {
        self.world.burn()?;
        let instr = match fr.body.instrs.get(ip) {
            Some(i) => i.clone(),
            None => return bad("runs off the code"),
        };
        let str = |r: Result<redscript::Ref<str>, redscript::bundle::PoolError>| match r {
            Ok(s) => Ok(Rc::from(s.as_ref())),
            Err(e) => bad(e.to_string()),
        };
        macro_rules! one {
            () => {
                self.eval(fr, ip + 1)?
            };
        }
        Ok(match instr {
            Instr::Null => (Val::Null, ip + 1),
            Instr::WeakRefNull => (Val::WNull, ip + 1),
            Instr::I32One => (Val::Int(1), ip + 1),
            Instr::I32Zero => (Val::Int(0), ip + 1),
            Instr::I32Const(i) => (Val::Int(i), ip + 1),
            Instr::I64Const(i) => (Val::I64(i), ip + 1),
            Instr::U32Const(i) => (Val::U32(i), ip + 1),
            Instr::U64Const(i) => (Val::U64(i), ip + 1),
            Instr::F32Const(f) => (Val::Float(f), ip + 1),
            Instr::F64Const(f) => (Val::Double(f), ip + 1),
            Instr::TrueConst => (Val::Bool(true), ip + 1),
            Instr::FalseConst => (Val::Bool(false), ip + 1),
            Instr::StringConst(i) => (Val::Str(str(self.pool.strings.get(i))?), ip + 1),
            Instr::NameConst(i) if i.is_undefined() => (Val::Name(Rc::from("")), ip + 1),
            Instr::NameConst(i) => (Val::Name(str(self.pool.names.get(i))?), ip + 1),
            Instr::EnumConst(e, m) => {
                let v = self.pool.enum_value(m).map_err(|e| Stop::Bad(e.to_string()))?;
                if !self.pool.enum_(e).map_err(|e| Stop::Bad(e.to_string()))?.members.contains(&m) {
                    return bad("a member of another enum");
                }
                (Val::Enum(Rc::from(self.name(e)), v), ip + 1)
            }
            Instr::This => match fr.this {
                Some(o) => (Val::Obj(o), ip + 1),
                None => return bad("this in a static function"),
            },
            Instr::New(c) => {
                let mut fields = HashMap::new();
                let mut k = Some(c);
                while let Some(i) = k {
                    let class = self.pool.class(i).map_err(|e| Stop::Bad(e.to_string()))?;
                    for f in &class.fields {
                        let t = self.pool.field(*f).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                        fields.insert(Rc::from(self.name(*f)), self.default(t));
                    }
                    k = (!class.base.is_undefined()).then_some(class.base);
                }
                self.store.objs.push((Rc::from(self.name(c)), fields));
                (Val::Obj(self.store.objs.len() - 1), ip + 1)
            }
            Instr::Construct(n, c) => {
                let class = self.pool.class(c).map_err(|e| Stop::Bad(e.to_string()))?;
                let name = self.name(c);
                let Val::Struct(_, mut vs) = self.blank(c) else { unreachable!() };
                if usize::from(n) != vs.len() && n != 0 {
                    return bad(format!("constructs {name} from {n} values"));
                }
                let mut k = ip + 1;
                for i in 0..usize::from(n) {
                    let (v, m) = self.eval(fr, k)?;
                    let t = self.pool.field(class.fields[i]).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                    if !self.fits(&v, t) {
                        return bad(format!("constructs {name} with {v:?} for a {}", self.name(t)));
                    }
                    vs[i] = v;
                    k = m;
                }
                (Val::Struct(Rc::from(name), vs), k)
            }
            Instr::Assign => {
                let (p, t, n) = self.place(fr, ip + 1)?;
                if t.is_none() && p.base != Base::Nowhere {
                    return bad("assigns to no place");
                }
                let (v, n) = self.eval(fr, n)?;
                if let Some(t) = t {
                    if !self.fits(&v, t) {
                        return bad(format!("stores {v:?} in a {}", self.name(t)));
                    }
                }
                // the default of a value that could not be computed
                let v = match (v, t) {
                    (Val::Unit, Some(t)) => self.default(t),
                    (v, _) => v,
                };
                if let Some(slot) = self.store.slot(&p) {
                    *slot = v;
                }
                (Val::Unit, n)
            }
            Instr::Local(_) | Instr::Param(_) | Instr::StructField(_) | Instr::ArrayElement(_) => {
                let (p, t, n) = self.place(fr, ip)?;
                match self.store.get(&p) {
                    Some(Val::Uninit) => return bad("reads a local before anything was stored in it"),
                    Some(v) => (v, n),
                    None => (t.map_or(Val::Unit, |t| self.default(t)), n),
                }
            }
            Instr::Context(e) => {
                let exit = fr.body.to(ip, &e)?;
                let (v, n) = self.eval(fr, ip + 1)?;
                if let Instr::ObjectField(f) = fr.body.instrs[n].clone() {
                    let t = self.pool.field(f).map_err(|e| Stop::Bad(e.to_string()))?.type_;
                    match v {
                        Val::Obj(o) => {
                            let owner = self.pool.definition(f).map_err(|e| Stop::Bad(e.to_string()))?.parent;
                            let (cl, of) = (self.store.objs[o].0.clone(), self.name(owner));
                            if !self.is_a(&cl, &of) {
                                return bad(format!("field {} of {of} in a {cl}", self.name(f)));
                            }
                            let p = Place { base: Base::Obj(o, Rc::from(self.name(f))), path: vec![] };
                            (self.store.get(&p).unwrap_or(Val::Unit), n + 1)
                        }
                        Val::Null | Val::Unit => (self.default(t), exit),
                        v => return bad(format!("field {} of {v:?}", self.name(f))),
                    }
                } else {
                    self.member(fr, v, n, exit)?
                }
            }
            Instr::InvokeStatic(e, _, f, flags) => self.invoke(fr, ip, &e, f, flags, None)?,
            Instr::InvokeVirtual(e, _, n, flags) => {
                let Some(o) = fr.this else { return bad("a virtual call without an object") };
                let f = self.dispatch(o, n)?;
                self.invoke(fr, ip, &e, f, flags, Some(o))?
            }
            Instr::Conditional(f, e) => {
                let exit = fr.body.to(ip, &e)?;
                let other = fr.body.to(ip, &f)?;
                let (c, n) = one!();
                match c {
                    Val::Bool(true) => (self.eval(fr, n)?.0, exit),
                    Val::Bool(false) => (self.eval(fr, other)?.0, exit),
                    v => return bad(format!("{v:?} as a condition")),
                }
            }
            Instr::Equals(_) | Instr::NotEquals(_) => {
                let (a, n) = one!();
                let (c, n) = self.eval(fr, n)?;
                let eq = a.canon() == c.canon();
                (Val::Bool(eq == matches!(instr, Instr::Equals(_))), n)
            }
            Instr::ArrayClear(t)
            | Instr::ArraySize(t)
            | Instr::ArrayResize(t)
            | Instr::ArrayFindFirst(t)
            | Instr::ArrayFindLast(t)
            | Instr::ArrayContains(t)
            | Instr::ArrayCount(t)
            | Instr::ArrayPush(t)
            | Instr::ArrayPop(t)
            | Instr::ArrayInsert(t)
            | Instr::ArrayRemove(t)
            | Instr::ArrayGrow(t)
            | Instr::ArrayErase(t)
            | Instr::ArrayLast(t) => {
                let name = format!("{instr:?}").split('(').next().unwrap().to_owned();
                let Ok(Type::Array(elem)) = self.pool.type_(t) else { return bad(format!("{name} of {}", self.name(t))) };
                let k = operands(&instr).unwrap();
                let (p, _, mut n) = self.place(fr, ip + 1)?;
                let mut vs = vec![];
                for _ in 1..k {
                    let (v, m) = self.eval(fr, n)?;
                    vs.push(v);
                    n = m;
                }
                if matches!(name.as_str(), "ArrayPush" | "ArrayInsert") && !self.fits(vs.last().unwrap(), *elem) {
                    return bad(format!("{name} of {:?} into an array of {}", vs.last(), self.name(*elem)));
                }
                let mut xs = match self.store.get(&p) {
                    Some(Val::Arr(xs)) => xs,
                    None => vec![],
                    Some(v) => return bad(format!("{name} of {v:?}")),
                };
                let d = self.default(*elem);
                let Some(v) = array_op(&name, &mut xs, &vs, &d) else { return bad(format!("{name} with {vs:?}")) };
                if let Some(slot) = self.store.slot(&p) {
                    *slot = Val::Arr(xs);
                }
                (v, n)
            }
            Instr::RefToBool => match one!() {
                (Val::Null | Val::Unit, n) => (Val::Bool(false), n),
                (Val::Obj(_), n) => (Val::Bool(true), n),
                (v, _) => return bad(format!("RefToBool of {v:?}")),
            },
            Instr::WeakRefToBool => match one!() {
                (Val::WNull | Val::Unit, n) => (Val::Bool(false), n),
                (Val::WObj(_), n) => (Val::Bool(true), n),
                (v, _) => return bad(format!("WeakRefToBool of {v:?}")),
            },
            Instr::VariantIsDefined => match one!() {
                (Val::Variant(_), n) => (Val::Bool(true), n),
                (v, _) => return bad(format!("VariantIsDefined of {v:?}")),
            },
            Instr::VariantIsRef => match one!() {
                (Val::Variant(v), n) => (Val::Bool(matches!(*v, Val::Obj(_) | Val::Null)), n),
                (v, _) => return bad(format!("VariantIsRef of {v:?}")),
            },
            Instr::VariantIsArray => match one!() {
                (Val::Variant(v), n) => (Val::Bool(matches!(*v, Val::Arr(_))), n),
                (v, _) => return bad(format!("VariantIsArray of {v:?}")),
            },
            Instr::EnumToI32(t, 4) => match one!() {
                (Val::Enum(e, v), n) if *e == *self.name(t) => (Val::Int(v as i32), n),
                (v, _) => return bad(format!("EnumToI32 of {v:?}")),
            },
            Instr::I32ToEnum(t, 4) => match one!() {
                (Val::Int(v), n) => (Val::Enum(Rc::from(self.name(t)), i64::from(v)), n),
                (v, _) => return bad(format!("I32ToEnum of {v:?}")),
            },
            Instr::DynamicCast(c, _) => match one!() {
                (Val::Obj(o), n) => {
                    let cl = self.store.objs[o].0.clone();
                    (if self.is_a(&cl, &self.name(c)) { Val::Obj(o) } else { Val::Null }, n)
                }
                (Val::Null | Val::Unit, n) => (Val::Null, n),
                (v, _) => return bad(format!("DynamicCast of {v:?}")),
            },
            Instr::ToString(t) => {
                let (v, n) = one!();
                if !self.fits(&v, t) {
                    return bad(format!("ToString of {v:?} as {}", self.name(t)));
                }
                (Val::Str(Rc::from(v.text())), n)
            }
            Instr::VariantToString => match one!() {
                (Val::Variant(v), n) => (Val::Str(Rc::from(v.text())), n),
                (v, _) => return bad(format!("VariantToString of {v:?}")),
            },
            Instr::ToVariant(t) => {
                let (v, n) = one!();
                if !self.fits(&v, t) {
                    return bad(format!("ToVariant of {v:?} as {}", self.name(t)));
                }
                (Val::Variant(Box::new(v)), n)
            }
            Instr::FromVariant(t) => match one!() {
                (Val::Variant(v), n) => {
                    if !self.fits(&v, t) {
                        return bad(format!("FromVariant of {v:?} as {}", self.name(t)));
                    }
                    (*v, n)
                }
                (v, _) => return bad(format!("FromVariant of {v:?}")),
            },
            Instr::WeakRefToRef => match one!() {
                (Val::WObj(o), n) => (Val::Obj(o), n),
                (Val::WNull | Val::Unit, n) => (Val::Null, n),
                (v, _) => return bad(format!("WeakRefToRef of {v:?}")),
            },
            Instr::RefToWeakRef => match one!() {
                (Val::Obj(o), n) => (Val::WObj(o), n),
                (Val::Null | Val::Unit, n) => (Val::WNull, n),
                (v, _) => return bad(format!("RefToWeakRef of {v:?}")),
            },
            Instr::AsRef(t) => {
                let (v, n) = one!();
                if !self.fits(&v, t) {
                    return bad(format!("AsRef of {v:?} as {}", self.name(t)));
                }
                (Val::SRef(Box::new(v)), n)
            }
            Instr::Deref(t) => match one!() {
                (v @ Val::SRef(_), n) if self.fits(&v, t) => {
                    let Val::SRef(v) = v else { unreachable!() };
                    (*v, n)
                }
                (v, _) => return bad(format!("Deref of {v:?} as {}", self.name(t))),
            },
            i => return bad(format!("{i:?} where a value is expected")),
        })
    }
}

/// whether the referent of a reference is a value without a place
fn temporary(b: &Body, ip: usize) -> bool {
    match &b.instrs[ip] {
        Instr::Local(_) | Instr::Param(_) | Instr::This | Instr::Deref(_) => false,
        Instr::StructField(_) | Instr::ArrayElement(_) => temporary(b, ip + 1),
        Instr::Context(_) => {
            let mut used = HashSet::new();
            match span(b, ip + 1, &mut used) {
                Ok(n) => !matches!(b.instrs[n], Instr::ObjectField(_)),
                Err(_) => true,
            }
        }
        Instr::I32Const(_) | Instr::I64Const(_) | Instr::U32Const(_) | Instr::U64Const(_) | Instr::F32Const(_)
        | Instr::F64Const(_) | Instr::NameConst(_) | Instr::StringConst(_) | Instr::TweakDbIdConst(_)
        | Instr::ResourceConst(_) | Instr::TrueConst | Instr::FalseConst => false,
        _ => true,
    }
}

/// the end of the expression at an index; checks the offsets inside it
fn span(b: &Body, ip: usize, inner: &mut HashSet<usize>) -> R<usize> {
    let Some(i) = b.instrs.get(ip) else { return bad("an expression runs off the code") };
    inner.insert(ip);
    match i {
        Instr::Context(e) => {
            let n = span(b, ip + 1, inner)?;
            match b.instrs.get(n) {
                Some(Instr::ObjectField(_) | Instr::InvokeStatic(..) | Instr::InvokeVirtual(..)) => {}
                i => return bad(format!("{i:?} in a context")),
            }
            let n = span(b, n, inner)?;
            if b.to(ip, e)? != n {
                return bad("the end of a context is not the end of what depends on it");
            }
            Ok(n)
        }
        Instr::InvokeStatic(e, ..) | Instr::InvokeVirtual(e, ..) => {
            let mut n = ip + 1;
            loop {
                match b.instrs.get(n) {
                    Some(Instr::ParamEnd) => {
                        inner.insert(n);
                        n += 1;
                        break;
                    }
                    Some(Instr::Skip(o)) => {
                        inner.insert(n);
                        let m = span(b, n + 1, inner)?;
                        if b.to(n, o)? != m {
                            return bad("a skip does not lead to the end of its argument");
                        }
                        n = m;
                    }
                    _ => n = span(b, n, inner)?,
                }
            }
            if b.to(ip, e)? != n {
                return bad("the end of a call is not the end of its arguments");
            }
            Ok(n)
        }
        Instr::Conditional(f, e) => {
            let n = span(b, ip + 1, inner)?;
            let n = span(b, n, inner)?;
            if b.to(ip, f)? != n {
                return bad("the second branch of a conditional is not where it should be");
            }
            let n = span(b, n, inner)?;
            if b.to(ip, e)? != n {
                return bad("the end of a conditional is not where it should be");
            }
            Ok(n)
        }
        i => match operands(i) {
            Some(k) => {
                let mut n = ip + 1;
                for _ in 0..k {
                    n = span(b, n, inner)?;
                }
                Ok(n)
            }
            None => bad(format!("{i:?} where an expression is expected")),
        },
    }
}

fn layout(pool: &ConstantPool, f: PoolIndex<Function>) -> R<Body> {
    let fun = pool.function(f).map_err(|e| Stop::Bad(e.to_string()))?;
    let mut b = Body { instrs: vec![], pos: vec![], at: HashMap::new(), end: 0 };
    for (loc, i) in fun.code.iter() {
        b.at.insert(usize::from(loc.value), b.instrs.len());
        b.pos.push(usize::from(loc.value));
        b.end = usize::from(loc.value) + usize::from(i.size());
        b.instrs.push(i);
    }
    b.at.insert(b.end, b.instrs.len());
    // statements, and where jumps may lead
    let mut inner = HashSet::new();
    let mut ip = 0;
    let mut targets = vec![];
    while ip < b.instrs.len() {
        ip = match &b.instrs[ip] {
            Instr::Jump(o) => {
                targets.push(b.to(ip, o)?);
                ip + 1
            }
            Instr::SwitchDefault => ip + 1,
            Instr::JumpIfFalse(o) => {
                targets.push(b.to(ip, o)?);
                span(&b, ip + 1, &mut inner)?
            }
            Instr::Switch(_, o) => {
                targets.push(b.to(ip, o)?);
                span(&b, ip + 1, &mut inner)?
            }
            Instr::SwitchLabel(x, y) => {
                targets.push(b.to(ip, x)?);
                targets.push(b.to(ip, y)?);
                span(&b, ip + 1, &mut inner)?
            }
            _ => {
                let n = span(&b, ip, &mut inner)?;
                inner.remove(&ip);
                n
            }
        };
    }
    for t in targets {
        if inner.contains(&t) {
            return bad(format!("a jump leads into an expression, to {}", b.pos[t]));
        }
    }
    Ok(b)
}
