//! The pool every case starts from: the primitive types, and a prelude of natives the harness
//! gives a meaning to.
use std::io::Cursor;

use redscript::bundle::{ConstantPool, ScriptBundle};
use redscript::definition::AnyDefinition;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::parser;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::{CompilationOutput, CompilationUnit};

pub const PREDEF: &[u8] = include_bytes!("/repo/resources/predef.redscripts");

pub fn prelude() -> String {
    let mut o = String::from("public abstract native class IScriptable {}\n");
    let mut f = |name: &str, params: &[&str], ret: &str| {
        let ps: Vec<String> = params
            .iter()
            .zip(["a", "b"])
            .map(|(p, n)| match p.strip_prefix("out ") {
                Some(p) => format!("out {n}: {p}"),
                None => format!("{n}: {p}"),
            })
            .collect();
        let ret = if ret.is_empty() { String::new() } else { format!(" -> {ret}") };
        o.push_str(&format!("public native func {name}({}){ret};\n", ps.join(", ")));
    };
    for op in ["Add", "Subtract", "Multiply", "Divide", "Modulo", "Or", "And", "Xor"] {
        f(&format!("Operator{op}"), &["Int32", "Int32"], "Int32");
    }
    for op in ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual"] {
        f(&format!("Operator{op}"), &["Int32", "Int32"], "Bool");
    }
    for op in ["Add", "Subtract", "Multiply"] {
        f(&format!("Operator{op}"), &["Float", "Float"], "Float");
    }
    f("OperatorLess", &["Float", "Float"], "Bool");
    f("OperatorAdd", &["String", "String"], "String");
    f("OperatorAdd", &["script_ref<String>", "script_ref<String>"], "String");
    f("OperatorEqual", &["Bool", "Bool"], "Bool");
    f("OperatorNotEqual", &["Bool", "Bool"], "Bool");
    f("OperatorEqual", &["CName", "CName"], "Bool");
    f("OperatorLogicAnd", &["Bool", "Bool"], "Bool");
    f("OperatorLogicOr", &["Bool", "Bool"], "Bool");
    f("OperatorLogicNot", &["Bool"], "Bool");
    f("OperatorNeg", &["Int32"], "Int32");
    f("OperatorNeg", &["Int64"], "Int64");
    f("OperatorNeg", &["Float"], "Float");
    f("OperatorBitNot", &["Int32"], "Int32");
    for op in ["Add", "Subtract", "Multiply", "Divide", "Or", "And"] {
        f(&format!("OperatorAssign{op}"), &["out Int32", "Int32"], "Int32");
    }
    f("OperatorAssignAdd", &["out Float", "Float"], "Float");
    f("C", &["Int32"], "Bool");
    f("N", &["Int32"], "Int32");
    for (n, t) in [
        ("V", "Int32"),
        ("VB", "Bool"),
        ("VS", "String"),
        ("VF", "Float"),
        ("VA", "array<Int32>"),
    ] {
        f(n, &[t], t);
        f(&n.replace('V', "T"), &[t], "");
    }
    // the type of null
    f("Same", &["ref<IScriptable>", "ref<IScriptable>"], "Bool");
    f("TW", &["Variant"], "");
    f("TN", &["CName"], "");
    f("TL", &["Int64"], "");
    f("TD", &["Double"], "");
    f("TU", &["Uint64"], "");
    o
}

pub fn compile(pool: &mut ConstantPool, sources: &[&str]) -> Result<CompilationOutput, String> {
    let modules = sources
        .iter()
        .map(|s| parser::parse_str(s).map_err(|e| format!("does not parse at {e}")))
        .collect::<Result<Vec<_>, _>>()?;
    CompilationUnit::new_with_defaults(pool)
        .map_err(|e| e.to_string())?
        .compile(modules, &Files::default())
        .map_err(|e| e.to_string())
}

/// the first fatal diagnostic, shown
pub fn fatal(ds: &[Diagnostic]) -> Option<String> {
    ds.iter().find(|d| d.is_fatal()).map(|d| format!("{d:?}"))
}

fn build() -> ConstantPool {
    let mut pool = ScriptBundle::load(&mut Cursor::new(PREDEF)).expect("predef").pool;
    let out = compile(&mut pool, &[&prelude()]).expect("prelude");
    if let Some(d) = fatal(out.diagnostics()) {
        panic!("the prelude does not compile: {d}");
    }
    // what no source can say
    let root: Vec<_> = pool
        .definitions()
        .filter(|(_, d)| matches!(d.value, AnyDefinition::Class(_)) && &*pool.names.get(d.name).unwrap() == "IScriptable")
        .map(|(i, _)| i)
        .collect();
    for i in root {
        pool.class_mut(i.cast()).unwrap().base = redscript::bundle::PoolIndex::UNDEFINED;
    }
    let fix: Vec<_> = pool
        .definitions()
        .filter(|(_, d)| matches!(d.value, AnyDefinition::Function(_)))
        .map(|(i, d)| (i, pool.names.get(d.name).unwrap()))
        .collect();
    for (i, name) in fix {
        if name.starts_with("OperatorLogicAnd;") || name.starts_with("OperatorLogicOr;") {
            let p = pool.function(i.cast()).unwrap().parameters[1];
            let mut d = pool.definition(p).unwrap().clone();
            if let AnyDefinition::Parameter(p) = &mut d.value {
                p.flags = p.flags.with_is_short_circuit(true);
            }
            pool.put_definition(p.cast::<redscript::definition::Definition>(), d);
        }
        if name.starts_with("OperatorAdd;script_ref") {
            let n = pool.names.add("OperatorAdd;Script_RefStringScript_RefString;String".into());
            let mut d = pool.definition(i).unwrap().clone();
            d.name = n;
            pool.put_definition(i, d);
        }
    }
    pool
}

thread_local! {
    static BASE: ConstantPool = build();
}

pub fn pool() -> ConstantPool {
    BASE.with(Clone::clone)
}
