COMP = '/verif/tools/demo_comp'
SCC = '/verif/tools/demo_scc'
def lst(names, *sources):
    src = ', '.join('r#"%s"#' % s for s in sources)
    return '''mod kit;
use kit::*;
fn main() {
    let pool = compile(&[%s]).unwrap();
    let mut o = String::new();
    for f in [%s] {
        o += &format!("{f}:\\n{}\\n", code(&pool, f).join("\\n"));
    }
    as_before(&o);
}
''' % (src, ', '.join('"%s"' % n for n in names))
SCCKIT = '''
use std::fs;
use std::path::Path;
use scc_lib::api::*;
const GAME: &[u8] = include_bytes!("/repo/resources/predef.redscripts");
fn settings(custom: Option<&str>, output: Option<&str>) -> Box<SccSettings> {
    let c = |s: &str| std::ffi::CString::new(s).unwrap();
    unsafe {
        let mut s = scc_settings_new(c("r6").as_ptr());
        if let Some(p) = custom { scc_settings_set_custom_cache_file(&mut s, c(p).as_ptr()); }
        if let Some(p) = output { scc_settings_set_output_cache_file(&mut s, c(p).as_ptr()); }
        s
    }
}
fn run(custom: Option<&str>, output: Option<&str>) -> Result<Box<SccResult>, String> {
    let r = unsafe { scc_compile(settings(custom, output)) };
    let e = match &*r { SccResult::Success(_) => None, SccResult::Error(e) => Some(e.to_string()) };
    match e { None => Ok(r), Some(e) => Err(e) }
}
fn names(p: &str) -> Vec<String> {
    let b = redscript::bundle::ScriptBundle::load(&mut std::io::Cursor::new(fs::read(p).unwrap())).unwrap();
    b.pool.roots().map(|(i, _)| b.pool.def_name(i).unwrap().to_string()).collect()
}
/// a version of the game: a bundle with one more enumeration
fn version(n: &str) -> Vec<u8> {
    let mut b = redscript::bundle::ScriptBundle::load(&mut std::io::Cursor::new(GAME)).unwrap();
    let name = b.pool.names.add(n.into());
    b.pool.add_definition::<redscript::definition::Enum>(redscript::definition::Definition::enum_(name, redscript::definition::Enum { flags: 0, size: 0, members: vec![], unk1: false }));
    let mut o = std::io::Cursor::new(vec![]);
    b.save(&mut o).unwrap();
    o.into_inner()
}
fn write(p: &str, d: impl AsRef<[u8]>) {
    fs::create_dir_all(Path::new(p).parent().unwrap()).unwrap();
    fs::write(p, d).unwrap();
}
fn ensure(ok: bool, what: &str) {
    if !ok { println!("{what}"); std::process::exit(1); }
}
'''
A='compiler/src/assembler.rs'; T='compiler/src/typechecker.rs'; U='compiler/src/unit.rs'; G='compiler/src/sugar.rs'; Y='compiler/src/symbol.rs'; C='compiler/src/cte.rs'
L='scc/lib/src/lib.rs'; H='scc/lib/src/hints.rs'; M='compiler/src/source_map.rs'
def comp(id, prop, needs, breaks, edits, main, want=True): return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, tpl=COMP, want=want)
def scc(id, prop, needs, breaks, edits, main): return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=SCCKIT+main, tpl=SCC)
SEEDS = [
comp('b30','C20','a switch inside a loop whose default case has a break','the break of the default case leaves the loop instead of the switch',
 [(A,'self.emit(Instr::SwitchDefault);\n                    self.assemble_seq(body, scope, pool, Some(exit_label))?;','self.emit(Instr::SwitchDefault);\n                    self.assemble_seq(body, scope, pool, exit.or(Some(exit_label)))?;')],
 lst(['f'],'func f() { while C(0) { switch N(1) { case 1: T(1); break; default: T(2); break; } T(3); } T(4); }')),
comp('b31','C20','an else branch that declares a local of the name of an outer one, which is used after it','a local declared in an else branch hides the outer one after the branch',
 [(T,'''.map_or_else(|| Ok(None), |body| self.check_seq(body, &mut scope.clone()).map(Some))?;

                Expr::If(''','''.map_or_else(|| Ok(None), |body| self.check_seq(body, scope).map(Some))?;

                Expr::If(''')],
 lst(['f'],'func f() { let x: Int32 = 1; if C(0) { T(1); } else { let x: Int32 = 2; T(x); } T(x); }')),
comp('b32','C21','an interpolated string with a part between values that is only blanks','parts of strings that are blank are dropped',
 [(G,'let combined = if str.is_empty() {','let combined = if str.trim().is_empty() {')],
 lst(['f'],r'func f() -> String { return s"a\(V(1)) \(V(2))b"; }')),
comp('b33','C21','an integer literal beyond 2^24 where a Double is expected','integer literals lose digits where a Double is expected',
 [(T,'Constant::F64(f64::from(*i))','Constant::F64((*i as f32).into())')],
 lst(['f'],'func f() { TD(16777217); let a: Double = 3; }')),
comp('b34','C22','an array declared without a value in the body of a loop that runs twice','an array declared in a loop keeps the elements of the last round',
 [(A,'''            TypeId::Array(_) => {
                self.emit(Instr::ArrayClear(scope.get_type_index(&typ, pool)?));
                self.emit(Instr::Local(local));
            }
''','''            TypeId::Array(_) => {
                // locals are empty when the function starts
                scope.get_type_index(&typ, pool)?;
            }
''')],
 lst(['f'],'func f() { while C(0) { let a: array<Int32>; ArrayPush(a, 1); T(ArraySize(a)); } }')),
comp('b35','C22','a for loop over an array in a local or parameter that the body changes','a loop over an array sees changes of the array made in its body',
 [(G,'''        let arr_local = self.fresh_local(&arr_type).with_span(span)?;
''','''        let arr_local = match &array {
            Expr::Ident(array @ Reference::Value(Value::Local(_)), _) => array.clone(),
            _ => self.fresh_local(&arr_type).with_span(span)?,
        };
''')],
 lst(['f'],'func f() { let a: array<Int32>; ArrayPush(a, 1); for x in a { ArrayClear(a); T(x); } }')),
comp('b36','C23','a wrapper on a method that the class only inherits','wrapping an inherited method is accepted and changes it for all other classes',
 [(U,'''                    let candidates = self
                        .scope
                        .resolve_direct_method(name.clone(), target_class_idx, self.pool)
                        .ok();
                    let fun_idx = candidates
                        .as_ref()
                        .and_then(|cd| cd.by_id(&sig, self.pool))
                        .ok_or_else(|| {
                            if candidates.is_some() {
                                Cause::NoMethodWithMatchingSignature.with_span(ann.span)
                            } else {
                                Cause::NoMethodWithMatchingName.with_span(ann.span)
                            }
                        })?;

                    let wrapped_idx''','''                    let candidates = self
                        .scope
                        .resolve_method(name.clone(), target_class_idx, self.pool)
                        .ok();
                    let fun_idx = candidates
                        .as_ref()
                        .and_then(|cd| cd.by_id(&sig, self.pool))
                        .ok_or_else(|| {
                            if candidates.is_some() {
                                Cause::NoMethodWithMatchingSignature.with_span(ann.span)
                            } else {
                                Cause::NoMethodWithMatchingName.with_span(ann.span)
                            }
                        })?;

                    let wrapped_idx''')],
 '''mod kit;
use kit::*;
fn main() {
    let mut pool = compile(&["class A { func F() {} } class B extends A { func G() {} }"]).unwrap();
    let r = round(&mut pool, &["@wrapMethod(B) func F() { wrappedMethod(); }"]);
    ensure(r.is_err(), "a wrapper of an inherited method was accepted");
}
''', want=False),
comp('b37','C23','a wrapper on a method that is a callback','the method moved away by a wrapper is still registered as a callback, so it runs twice',
 [(U,'            func.flags = func.flags.with_is_callback(false);\n','            func.flags = func.flags.with_is_callback(func.flags.is_callback() && !func.flags.is_static());\n')],
 '''mod kit;
use kit::*;
use redscript::definition::AnyDefinition;
fn main() {
    let mut pool = compile(&["class A { cb func F() {} }"]).unwrap();
    round(&mut pool, &["@wrapMethod(A) cb func F() { wrappedMethod(); }"]).unwrap();
    let n = pool.definitions().filter(|(_, d)| matches!(&d.value, AnyDefinition::Function(f) if f.flags.is_callback())).count();
    ensure(n == 1, &format!("{n} callbacks"));
}
''', want=False),
comp('b38','C24','a persistent field whose type has a type argument that may not be persistent','fields of arrays of strings are accepted as persistent',
 [(U,'typ.arguments().iter().all(can_be_persistent)','typ.arguments().first().map_or(true, |typ| typ != &TypeName::VARIANT)')],
 '''mod kit;
use kit::*;
fn main() {
    ensure(compile(&["class A { persistent let a: array<Int32>; }"]).is_ok(), "refused");
    ensure(compile(&["class A { persistent let a: String; }"]).is_err(), "accepted");
    ensure(compile(&["class A { persistent let a: array<String>; }"]).is_err(), "an array of strings is accepted as persistent");
}
''', want=False),
comp('b39','C24','classes declared in an order where a class that was in order comes to stand before its base when others are moved','a class can come to stand before its base class',
 [(U,'if u32::from(min_unsorted) < u32::from(cls.base) && !unsorted.contains(&cls.base) =>','if u32::from(min_unsorted) < u32::from(cls.base) && cls.base.is_undefined() =>')],
 '''mod kit;
use kit::*;
use redscript::definition::AnyDefinition;
fn main() {
    let text = "class A extends F {} class B {} class C {} class D extends E {} class E extends C {} class F extends B {}";
    let pool = compile(&[text]).unwrap();
    let mut bad = 0;
    for (i, d) in pool.definitions() {
        if let AnyDefinition::Class(c) = &d.value {
            if !c.base.is_undefined() && u32::from(c.base) > u32::from(i) { bad += 1; }
        }
    }
    ensure(bad == 0, &format!("{bad} classes stand before their base"));
}
''', want=False),
comp('b40','C25','an import of a function name with a public and a private overload','importing a function brings its private overloads along',
 [(Y,'''                let visible_funs: Vec<_> = funs.into_iter().filter(|(_, v)| *v <= visibility).collect();
                if visible_funs.is_empty() {
                    None
                } else {
                    Some(Self::Functions(visible_funs))
                }''','''                if funs.iter().any(|(_, v)| *v <= visibility) {
                    Some(Self::Functions(funs))
                } else {
                    None
                }''')],
 '''mod kit;
use kit::*;
fn main() {
    let m = "module M\\npublic func F(a: Int32) {}\\nfunc F(a: String) {}";
    ensure(compile(&[m, "import M.F\\nfunc g() { F(1); }"]).is_ok(), "refused");
    ensure(compile(&[m, "import M.F\\nfunc g() { F(\\"\\"); }"]).is_err(), "a private overload was imported");
}
''', want=False),
comp('b41','C25','a condition on a module that does not exist itself but has submodules','a module exists for conditions if only a module below it does',
 [(C,'self.modules.contains(&ModulePath::parse(name))','{\n            let path = ModulePath::parse(name).render();\n            self.modules.iter().any(|m| m.render() == path || m.render().starts_with(&format!("{path}.")))\n        }')],
 '''mod kit;
use kit::*;
fn main() {
    let m = "module A.B\\npublic func F() {}";
    let pool = compile(&[m, "@if(ModuleExists(\\"A\\"))\\nfunc g() { T(1); }\\n@if(ModuleExists(\\"A.B\\"))\\nfunc h() { T(1); }"]).unwrap();
    ensure(code(&pool, "g").is_empty() && !code(&pool, "h").is_empty(), "A exists");
}
''', want=False),
comp('b42','C26','a conditional with values of two classes whose common base is not the root','the type of a conditional is the root class instead of the nearest common base',
 [(T,'.take_while(|(a, b)| a == b).last();','.find(|(a, b)| a == b);')],
 '''mod kit;
use kit::*;
fn main() {
    let s = "class A {} class B extends A {} class C extends B {} class D extends B {}\\nfunc f(c: ref<C>, d: ref<D>) -> ref<B> { return IsDefined(c) ? c : d; }";
    ensure(compile(&[s]).is_ok(), "refused");
}
''', want=False),
comp('b43','C26','null given where a weak reference is expected','null is not turned into a weak reference',
 [(T,'(TypeId::Null, TypeId::WeakRef(_)) => Some(Conversion::RefToWeakRef)','(TypeId::Null, TypeId::WeakRef(_)) => Some(Conversion::Identity)')],
 lst(['f'],'class A {}\nfunc g(a: wref<A>) {}\nfunc f() { g(null); }')),
scc('b44','C27','a custom cache file with a backup of its own, and a backup in the cache folder','the backup of a bundle deployed to a custom path is replaced by the one of the default path',
 [(L,'if fallback_backup_path.exists() && !backup_path.exists() {','if fallback_backup_path.exists() && fallback_backup_path != backup_path {')],
 '''
fn main() {
    fs::create_dir_all("r6/scripts").unwrap();
    write("r6/cache/final.redscripts", version("Old"));
    run(None, None).unwrap();
    write("r6/cache/modded/final.redscripts", version("New"));
    run(Some("r6/cache/modded/final.redscripts"), None).unwrap();
    run(Some("r6/cache/modded/final.redscripts"), None).unwrap();
    ensure(names("r6/cache/modded/final.redscripts").iter().any(|n| n == "New"), "the deployed bundle was replaced by another one");
}
'''),
scc('b45','C27','two compilations, the first with a separate output and the second without','a compilation without a separate output after one with it takes no backup',
 [(L,'let is_output_file_separate = output_cache_path != cache_path;','let is_output_file_separate = output_cache_path.file_name() != cache_path.file_name();')],
 '''
fn main() {
    fs::create_dir_all("r6/cache/modded").unwrap();
    write("r6/cache/final.redscripts", version("Old"));
    write("r6/scripts/a.reds", "func A() {}");
    run(None, Some("r6/cache/modded/final.redscripts")).unwrap();
    let got = names("r6/cache/final.redscripts");
    ensure(!got.iter().any(|n| n.starts_with("A;")), "the game's bundle was changed");
    ensure(!Path::new("r6/cache/final.redscripts.bk").exists(), "a backup");
}
'''),
scc('b46','C28','a compilation with a separate output that ends while the backup is put back','an interrupted restoration leaves half a bundle',
 [(L,'fs::rename(&backup_path, cache_path).context("Failed to restore the backup file")?;','fs::copy(&backup_path, cache_path).context("Failed to restore the backup file")?;\n                fs::remove_file(&backup_path).ok();')],
 '''
fn limit(n: u64) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}
fn main() {
    fs::create_dir_all("r6/scripts").unwrap();
    write("r6/cache/final.redscripts", version("Old"));
    run(None, None).unwrap();
    // no file may grow beyond 300 bytes
    limit(300);
    let _ = run(None, Some("r6/cache/modded.redscripts"));
    limit(libc::RLIM_INFINITY);
    run(None, Some("r6/cache/modded.redscripts")).unwrap_or_else(|e| { println!("no recovery: {e}"); std::process::exit(1) });
    ensure(names("r6/cache/modded.redscripts").iter().any(|n| n == "Old"), "not the game's bundle");
}
'''),
scc('b47','C28','a compilation that fails, or ends early, after another one had succeeded','the old result is removed before there is a new one',
 [(L,'    let mut bundle = load_bundle(&input_cache_path)?;','''    let input = load_bundle(&input_cache_path);
    // a result that is not complete has no timestamp
    fs::remove_file(output_cache_path).ok();
    let mut bundle = input?;''')],
 '''
fn main() {
    write("r6/scripts/a.reds", "func A( {}");
    write("r6/cache/final.redscripts", version("Old"));
    write("r6/cache/modded.redscripts", version("Other"));
    let _ = run(None, Some("r6/cache/modded.redscripts"));
    ensure(Path::new("r6/cache/final.redscripts").exists(), "the bundle is gone");
    ensure(Path::new("r6/cache/modded.redscripts").exists(), "the output is gone");
}
'''),
scc('b48','C29','a hint for a file given by its last components','a hint applies to all files whose path ends like its file',
 [(H,'Some(p.as_path()) == path','path.is_some_and(|path| path.ends_with(p))')],
 '''
fn main() {
    write("r6/cache/final.redscripts", GAME);
    write("r6/scripts/m/x.reds", "func A() -> Int32 { return missing; }");
    write("r6/config/redsUserHints/a.toml", "[[UNRESOLVED_REF]]\\nid = \\"1\\"\\nmessage = \\"do this\\"\\nfile = \\"x.reds\\"\\nline_contains = \\"missing\\"\\n");
    let e = run(None, None).err().unwrap();
    ensure(!e.contains("do this"), "the hint for another file is given");
}
'''),
scc('b49','C29','a position after a character of several bytes on a line other than the first','columns count bytes after the first line',
 [(M,'let col = self.source_slice(line_span).chars().count();','let slice = self.source_slice(line_span);\n        let col = if line == 0 { slice.chars().count() } else { slice.len() };')],
 '''
use redscript::ast::{Pos, Span};
fn main() {
    let mut files = redscript_compiler::source_map::Files::new();
    files.add("a.reds".into(), "a\\n\\u{17c}b".into());
    let l = files.lookup(Span::new(Pos::new(4), Pos::new(5))).unwrap();
    ensure((l.start.col, l.end.col) == (1, 2), "the column counts bytes");
}
'''),
scc('b50','C30','a compilation that starts while another one writes its result','the temporary file of a compilation that is under way is removed by another one that starts',
 [(L,'''    let script_paths = iter::once(settings.r6_dir.join("scripts").into_boxed_path())''','''    // what an interrupted compilation left behind
    let result_path = settings.output_cache_file.as_deref().unwrap_or(&cache_path);
    fs::remove_file(get_temp_path(result_path)).ok();

    let scripts_dir = settings.r6_dir.join("scripts");
    let script_paths = iter::once(scripts_dir.into_boxed_path())''')],
 '''
fn main() {
    // a compilation starts as soon as another one begins to write
    write("r6/scripts/a.reds", "func A() {}");
    write("r6/cache/final.redscripts", version("Old"));
    run(None, None).unwrap();
    let list = || {
        let mut l: Vec<_> = fs::read_dir("r6/cache").unwrap().flatten().map(|e| e.file_name()).collect();
        l.sort();
        l
    };
    let usual = list();
    for _ in 0..60 {
        let done = std::sync::atomic::AtomicBool::new(false);
        let ok = std::thread::scope(|s| {
            let one = s.spawn(|| {
                let ok = run(None, None).is_ok();
                done.store(true, std::sync::atomic::Ordering::SeqCst);
                ok
            });
            let other = s.spawn(|| {
                while !done.load(std::sync::atomic::Ordering::SeqCst) && list() == usual {}
                run(None, None).is_ok()
            });
            one.join().unwrap() && other.join().unwrap()
        });
        ensure(ok, "two compilations at once, and one of them failed");
    }
}
'''),
]
