exec(open('/verif/tools/seeds5.py').read())
TR='compiler/src/transform.rs'; UL='compiler/src/diagnostics/unused_local.rs'; PA='compiler/src/parser.rs'
LINT='''mod kit;
use kit::*;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;
fn reports(source: &str) -> Vec<String> {
    let mut pool = redscript::bundle::ScriptBundle::load(&mut std::io::Cursor::new(PREDEF)).unwrap().pool;
    let mut files = Files::new();
    files.add("p.reds".into(), prelude());
    files.add("a.reds".into(), source.into());
    let ds = CompilationUnit::new_with_defaults(&mut pool).unwrap().compile_files(&files).unwrap();
    let show = |d: &redscript_compiler::diagnostics::Diagnostic| {
        let mut o = String::new();
        d.display(&files, &mut o).unwrap();
        o
    };
    ds.diagnostics().iter().map(show).filter(|d| !d.contains("p.reds")).collect()
}
'''
TREE='''use redscript_compiler::parser::{parse_str, SourceEntry};
/// the body of the first function, without places
fn tree(source: &str) -> Option<String> {
    let m = parse_str(source).ok()?;
    let SourceEntry::Function(f) = m.entries.into_iter().next()? else { return None };
    let t = format!("{:?}", f.body);
    let mut o = String::new();
    let mut rest = t.as_str();
    while let Some(i) = rest.find("Span {") {
        o += &rest[..i];
        rest = &rest[i + rest[i..].find('}').unwrap() + 1..];
    }
    Some(o + rest)
}
fn same(a: &str, b: &str) {
    let (x, y) = (tree(a), tree(b));
    if x.is_none() || x != y {
        println!("{a} is read as {x:?}, and {b} as {y:?}");
        std::process::exit(1);
    }
}
'''
SEEDS = [
comp('b51','C31','a local that is used only in the condition of a conditional expression, in a place that is visited on its own','what is in the condition of a conditional expression is not looked at: locals used there count as unused and temporaries used there pass',
 [(TR,'''            Expr::Conditional(cond, true_, false_, _) => {
                $self.$fun(cond);
                $self.$fun(true_);''','''            Expr::Conditional(_, true_, false_, _) => {
                $self.$fun(true_);''')],
 LINT+'''
fn main() {
    let r = reports("func f() -> Int32 { let b = C(0); return b ? 1 : 2; }");
    if !r.is_empty() { println!("{r:?}"); std::process::exit(1); }
}
''', want=False),
comp('b52','C31','a local that is only ever assigned to','a local that is assigned to but not read is reported as unused',
 [(UL,'''            Expr::Ident(Reference::Value(Value::Local(local)), _) => {
                self.used_locals''','''            // what is only written to is of no use
            Expr::Assign(lhs, rhs, _) if matches!(**lhs, Expr::Ident(Reference::Value(Value::Local(_)), _)) => {
                self.on_expr(rhs);
                return;
            }
            Expr::Ident(Reference::Value(Value::Local(local)), _) => {
                self.used_locals''')],
 LINT+'''
fn main() {
    let r = reports("func f() { let a: Int32; if C(0) { a = 1; } }");
    if !r.is_empty() { println!("{r:?}"); std::process::exit(1); }
}
''', want=False),
comp('b53','C32','a comment inside of a comment','comments do not nest: the first end of a comment ends them all',
 [(PA,'''            = comment() / (!comment_start() !comment_end() [_])''','''            = !comment_end() [_]'''),(PA,'''            = comment_start() comment_content()* comment_end()''','''            = comment_start() (comment_content())* comment_end()''')],
 TREE+'''
fn main() {
    same("func f() { a /* x /* y */ z */ (1); }", "func f() { a (1); }");
}
''', want=False),
comp('b54','C32','an exclusive or next to an and of bits, without parentheses','exclusive or binds stronger than and',
 [(PA,'''            x:(@) _ pos:pos() "^" end:pos() _ y:@ { binop(x, y, BinOp::Xor) }
            --
            x:(@) _ pos:pos() "&" end:pos() _ y:@ { binop(x, y, BinOp::And) }''','''            x:(@) _ pos:pos() "&" end:pos() _ y:@ { binop(x, y, BinOp::And) }
            --
            x:(@) _ pos:pos() "^" end:pos() _ y:@ { binop(x, y, BinOp::Xor) }''')],
 TREE+'''
fn main() {
    same("func f() { return a ^ b & c; }", "func f() { return a ^ (b & c); }");
    same("func f() { return a & b ^ c; }", "func f() { return (a & b) ^ c; }");
}
''', want=False),
comp('b55','C32','a file with letters beyond ASCII before another one','files are measured in letters instead of bytes, so places in a file after one with letters beyond ASCII are taken for places in the wrong file',
 [(M,'let high = low + source.len();','let high = low + source.chars().count();')],
 '''use redscript::ast::Span;
use redscript_compiler::source_map::Files;
fn main() {
    let mut files = Files::new();
    files.add("a.reds".into(), "// \\u{e9}\\u{e9}\\u{e9}\\u{e9}".into());
    files.add("b.reds".into(), "func f() {}".into());
    let first = files.files().next().unwrap();
    let low = first.byte_offset() + first.source().len();
    let span = Span::new(low, low);
    let found = files.lookup(span).map(|l| l.file.path().to_owned());
    if found.as_deref() != Some("a.reds".as_ref()) { println!("the end of a.reds is in {found:?}"); std::process::exit(1); }
}
''', want=False),
scc('b56','C30','two compilations with the same new cache of their own that start at the same time','a cache of its own is set up before the compilation has it to itself, so two that do so at once fail or work on a half-written one',
 [(L,'''    let script_paths = iter::once(settings.r6_dir.join("scripts").into_boxed_path())''','''    // a cache of its own starts as a copy of the usual one
    if let (false, Some(cache_dir)) = (cache_path.exists(), cache_path.parent()) {
        fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
        let base_cache_file = get_base_bundle_path(&default_cache_dir)?;
        copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
    }
    let script_paths = iter::once(settings.r6_dir.join("scripts").into_boxed_path())''')],
 '''
fn main() {
    write("r6/scripts/a.reds", "func A() {}");
    // a large one, so that reading it takes its time
    let game = {
        let mut b = redscript::bundle::ScriptBundle::load(&mut std::io::Cursor::new(GAME)).unwrap();
        for i in 0..3000 {
            let name = b.pool.names.add(format!("Old{i}").into());
            b.pool.add_definition::<redscript::definition::Enum>(redscript::definition::Definition::enum_(name, redscript::definition::Enum { flags: 0, size: 0, members: vec![], unk1: false }));
        }
        let mut o = std::io::Cursor::new(vec![]);
        b.save(&mut o).unwrap();
        o.into_inner()
    };
    for _ in 0..150 {
        fs::remove_dir_all("r6/cache").ok();
        fs::remove_dir_all("r6/own").ok();
        write("r6/cache/final.redscripts", &game);
        let started = std::sync::Barrier::new(3);
        let failed = std::thread::scope(|s| {
            let all: Vec<_> = (0..3).map(|_| s.spawn(|| { started.wait(); run(Some("r6/own/x.redscripts"), None).err() })).collect();
            all.into_iter().find_map(|t| t.join().unwrap())
        });
        if let Some(e) = failed { ensure(false, &format!("compilations at once, and one of them failed: {e}")); }
    }
}
'''),
]
