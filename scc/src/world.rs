//! Directories as values: the files of an installation, put in place, changed by the code under
//! test, and read back.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, OnceLock};

use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::AnyDefinition;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;
use scc_lib::api::{SccResult, SccSettings};

use crate::shim::{self, Fault};

pub const PREDEF: &[u8] = include_bytes!("/repo/resources/predef.redscripts");
pub const GAMES: usize = 3;
pub const SCRIPTS: [&[(&str, &str)]; 5] = [
    &[],
    &[("mod_a/a.reds", "public func ModA() -> Int32 = 7\n")],
    &[
        ("mod_a/a.reds", "public func ModA() -> Int32 = 8\n"),
        (
            "mod_b/b.reds",
            "@wrapMethod(Game)\npublic func Version() -> Int32 {\n  return wrappedMethod();\n}\n\n@addMethod(Game)\npublic func Extra() -> Int32 = 1\n\n@addField(Game)\npublic let extra: Int32;\n",
        ),
    ],
    &[
        ("mod_a/a.reds", "public func ModA() -> Int32 = 9\n"),
        ("mod_c/c.reds", "func Bad() -> Int32 {\n  return missing;\n}\n"),
    ],
    &[("mod_d/d.reds", "func Bad( {\n")],
];
pub const GOOD: usize = 3;

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub data: Arc<Vec<u8>>,
    pub time: i64,
}

pub type Tree = BTreeMap<String, Node>;

/// the directory of this process; gone when it ends
pub struct Root(pub PathBuf);

impl Root {
    fn make() -> Self {
        let base = [Path::new("/dev/shm"), &std::env::temp_dir()]
            .into_iter()
            .find(|p| std::fs::create_dir_all(p.join(format!("verif-scc-{}", std::process::id()))).is_ok())
            .expect("a scratch directory")
            .join(format!("verif-scc-{}", std::process::id()));
        for (i, files) in SCRIPTS.iter().enumerate() {
            let s = base.join("sources").join(i.to_string());
            std::fs::create_dir_all(&s).unwrap();
            for (name, text) in *files {
                let f = s.join(name);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(f, text).unwrap();
            }
        }
        Self(base)
    }
    pub fn remove() {
        if let Some(r) = ROOT.get() {
            std::fs::remove_dir_all(&r.0).ok();
        }
    }
}

static ROOT: OnceLock<Root> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static HERE: Cell<bool> = const { Cell::new(false) };
}

/// the directory of all threads
pub fn root() -> &'static Path {
    &ROOT.get_or_init(Root::make).0
}

/// enters the directory of this thread, which holds the r6 directory; the bundle tells where its
/// sources are, so that all threads have to use the same names
pub fn enter() {
    HERE.with(|h| {
        if !h.replace(true) {
            let d = root().join(NEXT.fetch_add(1, Relaxed).to_string());
            std::fs::create_dir_all(&d).unwrap();
            assert_eq!(unsafe { libc::unshare(libc::CLONE_FS) }, 0, "harness: a working directory for each thread");
            std::env::set_current_dir(d).unwrap();
        }
    })
}

fn stamp(path: &Path, time: i64) {
    use std::os::unix::ffi::OsStrExt;
    let p = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    let ts = libc::timespec { tv_sec: time, tv_nsec: 0 };
    assert_eq!(unsafe { libc::utimensat(libc::AT_FDCWD, p.as_ptr(), [ts, ts].as_ptr(), 0) }, 0);
}

fn clear(dir: &Path) {
    if dir.exists() {
        std::fs::remove_dir_all(dir).unwrap();
    }
}

pub fn r6() -> PathBuf {
    "r6".into()
}

pub fn put(tree: &Tree, scripts: usize) {
    enter();
    let r6 = r6();
    clear(&r6);
    std::fs::create_dir_all(r6.join("cache/out")).unwrap();
    std::os::unix::fs::symlink(root().join("sources").join(scripts.to_string()), r6.join("scripts")).unwrap();
    for (name, node) in tree {
        let p = r6.join(name);
        if name.matches('/').count() > 1 {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        }
        std::fs::write(&p, &*node.data).unwrap();
        stamp(&p, node.time);
    }
}

pub fn get() -> Tree {
    fn walk(root: &Path, dir: &Path, out: &mut Tree) {
        for e in std::fs::read_dir(dir).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(root, &p, out);
            } else {
                use std::os::unix::fs::MetadataExt;
                let name = p.strip_prefix(root).unwrap().to_str().unwrap().to_owned();
                let data = Arc::new(std::fs::read(&p).unwrap());
                let time = std::fs::metadata(&p).unwrap().mtime();
                out.insert(name, Node { data, time });
            }
        }
    }
    let mut out = Tree::new();
    let r6 = r6();
    walk(&r6, &r6.join("cache"), &mut out);
    out
}

pub fn show(tree: &Tree) -> String {
    tree.iter()
        .map(|(n, f)| {
            let what = if n.ends_with(".ts") && f.data.len() == 16 {
                let t = u128::from_le_bytes(f.data[..].try_into().unwrap());
                format!("the time {}", t as f64 / 1e9)
            } else {
                name_of(&f.data)
            };
            format!("    {n}: {what} (written at {})\n", f.time)
        })
        .collect()
}

pub fn name_of(data: &[u8]) -> String {
    let w = known();
    if let Some(g) = (0..GAMES).find(|g| *w.games[*g] == data) {
        return format!("game {g}");
    }
    for g in 0..GAMES {
        for s in 0..GOOD {
            if w.built[g][s] == data {
                return format!("game {g} with scripts {s}");
            }
        }
    }
    format!("{} other bytes", data.len())
}

pub fn settings() -> SccSettings {
    SccSettings {
        r6_dir: r6().into(),
        custom_cache_file: None,
        output_cache_file: None,
        additional_script_paths: vec![],
    }
}

// ---------------------------------------------------------------- what compiling gives

pub struct Known {
    /// the bundles of the game
    pub games: Vec<Arc<Vec<u8>>>,
    /// each of them with each of the sets of scripts that compile
    pub built: Vec<Vec<Vec<u8>>>,
}

fn compile(pool: &mut ConstantPool, files: &Files) {
    let out = CompilationUnit::new(pool, vec![]).expect("unit").compile_and_report(files);
    out.map(drop).unwrap_or_else(|e| panic!("harness: {e}"));
}

fn sources(list: &[(&str, &str)]) -> Files {
    let mut files = Files::new();
    for (n, t) in list {
        files.add((*n).into(), (*t).into());
    }
    files
}

fn game(i: usize) -> Vec<u8> {
    let mut bundle = ScriptBundle::load(&mut Cursor::new(PREDEF)).expect("predef");
    let text = format!(
        "public abstract native class IScriptable {{}}\npublic class Game {{ public func Version() -> Int32 = {i} }}\npublic class Only{i} {{ let x: Int32; }}\n"
    );
    compile(&mut bundle.pool, &sources(&[("game.script", &text)]));
    let root: Vec<_> = bundle
        .pool
        .definitions()
        .filter(|(_, d)| matches!(d.value, AnyDefinition::Class(_)) && &*bundle.pool.names.get(d.name).unwrap() == "IScriptable")
        .map(|(i, _)| i)
        .collect();
    for i in root {
        bundle.pool.class_mut(i.cast()).unwrap().base = PoolIndex::UNDEFINED;
    }
    save(&bundle)
}

pub fn save(b: &ScriptBundle) -> Vec<u8> {
    let mut out = Cursor::new(vec![]);
    b.save(&mut out).unwrap();
    out.into_inner()
}

/// the definitions of a bundle at the top, in order
pub fn roots(data: &[u8]) -> Result<Vec<String>, String> {
    let b = ScriptBundle::load(&mut Cursor::new(data)).map_err(|e| e.to_string())?;
    let mut all = vec![];
    for (_, d) in b.pool.definitions() {
        let kind = match &d.value {
            AnyDefinition::Class(_) => "class",
            AnyDefinition::Enum(_) => "enum",
            AnyDefinition::Function(f) => match (f.code.is_empty(), f.flags.is_native()) {
                (true, false) => "empty function",
                _ => "function",
            },
            AnyDefinition::Field(_) => "field",
            _ => continue,
        };
        // the numbers in generated names are of no interest
        let name = b.pool.names.get(d.name).map_err(|e| e.to_string())?;
        let name = match name.split_once('$') {
            Some((n, rest)) if !n.is_empty() && rest.bytes().all(|b| b.is_ascii_digit()) => n,
            _ => &*name,
        };
        all.push(format!("{kind} {name}"));
    }
    all.sort();
    Ok(all)
}

/// what the definitions of a game with scripts are, said without scc
pub fn expected(g: usize, s: usize) -> Vec<String> {
    let mut b = ScriptBundle::load(&mut Cursor::new(&**GAME.get().unwrap()[g])).unwrap();
    compile(&mut b.pool, &sources(SCRIPTS[s]));
    let mut all = roots(&save(&b)).unwrap();
    all.push("enum $REDSCRIPT_SIGNATURE".into());
    all.sort();
    all
}

static GAME: OnceLock<Vec<Arc<Vec<u8>>>> = OnceLock::new();
static KNOWN: OnceLock<Known> = OnceLock::new();

pub const CACHE: &str = "cache/final.redscripts";

pub fn known() -> &'static Known {
    KNOWN.get_or_init(|| {
        let games = GAME.get_or_init(|| (0..GAMES).map(|i| Arc::new(game(i))).collect()).clone();
        let built = (0..GAMES)
            .map(|g| {
                (0..GOOD)
                    .map(|s| {
                        let tree = Tree::from([(CACHE.to_owned(), Node { data: games[g].clone(), time: 1 })]);
                        put(&tree, s);
                        let (r, _) = shim::with(Fault::None, 1, || scc_lib::compile(&settings()));
                        // what goes wrong here is reported by the section of fresh installations
                        let _ = matches!(*r, SccResult::Success(_));
                        get().get(CACHE).map(|n| n.data.to_vec()).unwrap_or_default()
                    })
                    .collect()
            })
            .collect();
        Known { games, built }
    })
}
