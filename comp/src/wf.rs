//! What every pool that the compiler leaves behind has to satisfy.
use std::collections::HashSet;
use std::io::Cursor;

use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::bytecode::Instr;
use redscript::definition::{AnyDefinition, Type};

/// the first thing that is wrong with a pool
pub fn check(pool: &ConstantPool, sources: bool) -> Result<(), String> {
    let count = pool.definitions().map(|(i, _)| u32::from(i) + 1).max().unwrap_or(0);
    for (i, d) in pool.definitions() {
        if d.name.is_undefined() && matches!(d.value, AnyDefinition::SourceFile(_)) {
            continue;
        }
        let Ok(name) = pool.names.get(d.name) else {
            return Err(format!("definition {i} has no name"));
        };
        let kind = |k: &str, x: u32| -> Result<(), String> {
            if x >= count {
                return Err(format!("{name} refers to definition {x}, which does not exist"));
            }
            let ok = match &pool.definition(PoolIndex::<redscript::definition::Definition>::new(x)).unwrap().value {
                AnyDefinition::Type(_) => k == "type",
                AnyDefinition::Class(_) => k == "class",
                AnyDefinition::Enum(_) => k == "enum",
                AnyDefinition::EnumValue(_) => k == "value",
                AnyDefinition::Function(_) => k == "function",
                AnyDefinition::Parameter(_) => k == "parameter",
                AnyDefinition::Local(_) => k == "local",
                AnyDefinition::Field(_) => k == "field",
                AnyDefinition::SourceFile(_) => k == "file",
            };
            if ok {
                Ok(())
            } else {
                Err(format!("{name} refers to definition {x} as a {k}, which it is not"))
            }
        };
        let owned = |k: &str, x: u32| -> Result<(), String> {
            kind(k, x)?;
            let d = pool.definition(PoolIndex::<redscript::definition::Definition>::new(x)).unwrap();
            if u32::from(d.parent) == u32::from(i) {
                Ok(())
            } else {
                Err(format!("the {k} {x} of {name} has another parent"))
            }
        };
        if !d.parent.is_undefined() && u32::from(d.parent) >= count {
            return Err(format!("{name} has a parent that does not exist"));
        }
        match &d.value {
            AnyDefinition::Type(t) => match t {
                Type::Prim | Type::Class => {
                    if name.contains(';') {
                        return Err(format!("{name} was never filled in"));
                    }
                }
                Type::Ref(t) | Type::WeakRef(t) | Type::Array(t) | Type::StaticArray(t, _) | Type::ScriptRef(t) => {
                    kind("type", (*t).into())?;
                }
            },
            AnyDefinition::Class(c) => {
                if !c.base.is_undefined() {
                    kind("class", c.base.into())?;
                    if u32::from(c.base) >= u32::from(i) {
                        return Err(format!("the base of {name} comes after it"));
                    }
                }
                let mut seen = HashSet::new();
                for f in &c.functions {
                    owned("function", (*f).into())?;
                    if !seen.insert(u32::from(*f)) {
                        return Err(format!("{name} lists a function twice"));
                    }
                }
                for f in &c.fields {
                    owned("field", (*f).into())?;
                    if !seen.insert(u32::from(*f)) {
                        return Err(format!("{name} lists a field twice"));
                    }
                }
            }
            AnyDefinition::Enum(e) => {
                for m in &e.members {
                    owned("value", (*m).into())?;
                }
            }
            AnyDefinition::EnumValue(_) | AnyDefinition::SourceFile(_) => {}
            AnyDefinition::Parameter(p) => kind("type", p.type_.into())?,
            AnyDefinition::Local(l) => kind("type", l.type_.into())?,
            AnyDefinition::Field(f) => kind("type", f.type_.into())?,
            AnyDefinition::Function(f) => {
                for p in &f.parameters {
                    kind("parameter", (*p).into())?;
                }
                for l in &f.locals {
                    owned("local", (*l).into())?;
                }
                if let Some(t) = f.return_type {
                    kind("type", t.into())?;
                }
                if f.flags.has_return_value() != f.return_type.is_some() || f.flags.has_parameters() == f.parameters.is_empty() {
                    return Err(format!("{name}: its flags say something else than its signature"));
                }
                if let Some(b) = f.base_method {
                    kind("function", b.into())?;
                }
                if sources {
                    // the first definition stands for no file
                    if let Some(s) = f.source.as_ref().filter(|s| u32::from(s.file) != 1) {
                        kind("file", s.file.into())?;
                    }
                }
                if !d.parent.is_undefined() {
                    let in_class = pool.class(d.parent.cast()).is_ok_and(|c| c.functions.contains(&i.cast()));
                    if !in_class {
                        return Err(format!("{name} is not listed in its class"));
                    }
                }
                for (_, instr) in f.code.iter() {
                    code(pool, f, &instr, &kind)?;
                }
            }
        }
    }
    Ok(())
}

fn code(
    pool: &ConstantPool,
    f: &redscript::definition::Function,
    i: &Instr<redscript::bytecode::Offset>,
    kind: &dyn Fn(&str, u32) -> Result<(), String>,
) -> Result<(), String> {
    use Instr::*;
    match i {
        NameConst(n) => pool.names.get(*n).map(|_| ()).map_err(|e| e.to_string()),
        StringConst(n) => pool.strings.get(*n).map(|_| ()).map_err(|e| e.to_string()),
        TweakDbIdConst(n) => pool.tweakdb_ids.get(*n).map(|_| ()).map_err(|e| e.to_string()),
        ResourceConst(n) => pool.resources.get(*n).map(|_| ()).map_err(|e| e.to_string()),
        EnumConst(e, v) => {
            kind("enum", (*e).into())?;
            kind("value", (*v).into())?;
            if pool.enum_(*e).is_ok_and(|e| e.members.contains(v)) {
                Ok(())
            } else {
                Err("an enum constant is no member of its enum".into())
            }
        }
        Local(l) if f.locals.contains(l) => Ok(()),
        Local(_) => Err("a local of another function is used".into()),
        Param(p) if f.parameters.contains(p) => Ok(()),
        Param(_) => Err("a parameter of another function is used".into()),
        ObjectField(x) | StructField(x) => kind("field", (*x).into()),
        Construct(_, c) | New(c) | DynamicCast(c, _) => kind("class", (*c).into()),
        InvokeStatic(_, _, f, _) => kind("function", (*f).into()),
        InvokeVirtual(_, _, n, _) => pool.names.get(*n).map(|_| ()).map_err(|e| e.to_string()),
        Switch(t, _) | EnumToI32(t, _) | I32ToEnum(t, _) => kind("type", (*t).into()),
        Equals(t) | NotEquals(t) | ArrayClear(t) | ArraySize(t) | ArrayResize(t) | ArrayFindFirst(t)
        | ArrayFindLast(t) | ArrayContains(t) | ArrayCount(t) | ArrayPush(t) | ArrayPop(t) | ArrayInsert(t)
        | ArrayRemove(t) | ArrayGrow(t) | ArrayErase(t) | ArrayLast(t) | ArrayElement(t) | ArraySort(t)
        | ToString(t) | ToVariant(t) | FromVariant(t) | AsRef(t) | Deref(t) => kind("type", (*t).into()),
        _ => Ok(()),
    }
}

/// the pool after it was written and read again
pub fn reload(pool: ConstantPool) -> Result<ConstantPool, String> {
    let mut base = ScriptBundle::load(&mut Cursor::new(crate::base::PREDEF)).map_err(|e| e.to_string())?;
    base.pool = pool;
    let mut out = Cursor::new(vec![]);
    base.save(&mut out).map_err(|e| format!("cannot be saved: {e}"))?;
    out.set_position(0);
    Ok(ScriptBundle::load(&mut out).map_err(|e| format!("cannot be loaded again: {e}"))?.pool)
}
