//! compiles sources after a prelude and lists the code of functions
#![allow(dead_code)]
use std::io::Cursor;

use redscript::bundle::{ConstantPool, ScriptBundle};
use redscript::definition::AnyDefinition;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::parser;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

pub const PREDEF: &[u8] = include_bytes!("/repo/resources/predef.redscripts");

pub fn prelude() -> String {
    let mut o = String::from("public abstract native class IScriptable {}\n");
    let mut f = |name: &str, params: &[&str], ret: &str| {
        let ps: Vec<String> = params
            .iter()
            .zip(["a", "b"])
            .map(|(p, n)| match p.strip_prefix("out ") {
                Some(p) => format!("out {n}: {p}"),
                None => format!("{n}: {p}"),
            })
            .collect();
        let ret = if ret.is_empty() { String::new() } else { format!(" -> {ret}") };
        o.push_str(&format!("public native func {name}({}){ret};\n", ps.join(", ")));
    };
    for op in ["Add", "Subtract", "Multiply", "Divide", "Modulo", "Or", "And", "Xor"] {
        f(&format!("Operator{op}"), &["Int32", "Int32"], "Int32");
    }
    for op in ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual"] {
        f(&format!("Operator{op}"), &["Int32", "Int32"], "Bool");
    }
    for op in ["Add", "Subtract", "Multiply"] {
        f(&format!("Operator{op}"), &["Float", "Float"], "Float");
    }
    f("OperatorLess", &["Float", "Float"], "Bool");
    f("OperatorAdd", &["String", "String"], "String");
    f("OperatorAdd", &["script_ref<String>", "script_ref<String>"], "String");
    f("OperatorEqual", &["Bool", "Bool"], "Bool");
    f("OperatorNotEqual", &["Bool", "Bool"], "Bool");
    f("OperatorEqual", &["CName", "CName"], "Bool");
    f("OperatorLogicAnd", &["Bool", "Bool"], "Bool");
    f("OperatorLogicOr", &["Bool", "Bool"], "Bool");
    f("OperatorLogicNot", &["Bool"], "Bool");
    f("OperatorNeg", &["Int32"], "Int32");
    f("OperatorNeg", &["Int64"], "Int64");
    f("OperatorNeg", &["Float"], "Float");
    f("OperatorBitNot", &["Int32"], "Int32");
    for op in ["Add", "Subtract", "Multiply", "Divide", "Or", "And"] {
        f(&format!("OperatorAssign{op}"), &["out Int32", "Int32"], "Int32");
    }
    f("OperatorAssignAdd", &["out Float", "Float"], "Float");
    f("C", &["Int32"], "Bool");
    f("N", &["Int32"], "Int32");
    for (n, t) in [
        ("V", "Int32"),
        ("VB", "Bool"),
        ("VS", "String"),
        ("VF", "Float"),
        ("VA", "array<Int32>"),
    ] {
        f(n, &[t], t);
        f(&n.replace('V', "T"), &[t], "");
    }
    // the type of null
    f("Same", &["ref<IScriptable>", "ref<IScriptable>"], "Bool");
    f("TW", &["Variant"], "");
    f("TN", &["CName"], "");
    f("TL", &["Int64"], "");
    f("TD", &["Double"], "");
    f("TU", &["Uint64"], "");
    o
}

pub fn round(pool: &mut ConstantPool, sources: &[&str]) -> Result<(), String> {
    let modules = sources.iter().map(|s| parser::parse_str(s).map_err(|e| format!("does not parse at {e}"))).collect::<Result<Vec<_>, _>>()?;
    let o = CompilationUnit::new_with_defaults(pool).map_err(|e| e.to_string())?.compile(modules, &Files::default()).map_err(|e| e.to_string())?;
    match o.diagnostics().iter().find(|d| d.is_fatal()) {
        Some(d) => Err(format!("{d:?}")),
        None => Ok(()),
    }
}

pub fn base() -> ConstantPool {
    let mut pool = ScriptBundle::load(&mut Cursor::new(PREDEF)).unwrap().pool;
    round(&mut pool, &[&prelude()]).unwrap();
    // what no source can say
    let root: Vec<_> = pool
        .definitions()
        .filter(|(_, d)| matches!(d.value, AnyDefinition::Class(_)) && &*pool.names.get(d.name).unwrap() == "IScriptable")
        .map(|(i, _)| i)
        .collect();
    for i in root {
        pool.class_mut(i.cast()).unwrap().base = redscript::bundle::PoolIndex::UNDEFINED;
    }
    let fix: Vec<_> = pool
        .definitions()
        .filter(|(_, d)| matches!(d.value, AnyDefinition::Function(_)))
        .map(|(i, d)| (i, pool.names.get(d.name).unwrap()))
        .collect();
    for (i, name) in fix {
        if name.starts_with("OperatorLogicAnd;") || name.starts_with("OperatorLogicOr;") {
            let p = pool.function(i.cast()).unwrap().parameters[1];
            let mut d = pool.definition(p).unwrap().clone();
            if let AnyDefinition::Parameter(p) = &mut d.value {
                p.flags = p.flags.with_is_short_circuit(true);
            }
            pool.put_definition(p.cast::<redscript::definition::Definition>(), d);
        }
        if name.starts_with("OperatorAdd;script_ref") {
            let n = pool.names.add("OperatorAdd;Script_RefStringScript_RefString;String".into());
            let mut d = pool.definition(i).unwrap().clone();
            d.name = n;
            pool.put_definition(i, d);
        }
    }
    pool
}

pub fn compile(sources: &[&str]) -> Result<ConstantPool, String> {
    let mut pool = base();
    round(&mut pool, sources)?;
    Ok(pool)
}

/// the instructions of the function of that name
pub fn code(pool: &ConstantPool, name: &str) -> Vec<String> {
    for (i, d) in pool.definitions() {
        if let AnyDefinition::Function(f) = &d.value {
            let n = pool.def_name(i).unwrap();
            if n.split(';').next() == Some(name) {
                return f.code.iter().map(|x| format!("{x:?}")).collect();
            }
        }
    }
    vec![]
}

/// compares with what the file beside the demonstration says
pub fn as_before(got: &str) {
    let file = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("want.txt");
    if std::env::var("WRITE_WANT").is_ok() {
        std::fs::write(&file, got).unwrap();
    }
    let want = std::fs::read_to_string(file).unwrap();
    if want != got {
        println!("expected:\n{want}\ngot:\n{got}");
        std::process::exit(1);
    }
}

/// fails unless the condition holds
pub fn ensure(ok: bool, what: &str) {
    if !ok {
        println!("{what}");
        std::process::exit(1);
    }
}
