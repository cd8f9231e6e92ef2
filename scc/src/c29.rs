//! C29: what a compilation tells: the report of a failure, the references of a success.
use std::collections::BTreeSet;
use std::ffi::CString;
use std::os::raw::c_char;
use std::path::{Path, PathBuf};

use redscript::ast::{Pos, Span};
use redscript_compiler::source_map::Files;
use scc_lib::api::*;

use crate::util::{fail, Chooser, Ctx, Cx, Fail};
use crate::world::{self, known, Node, Tree, CACHE};

fn install(scripts: &[(PathBuf, String)], hints: &[(&str, String)]) {
    let tree = Tree::from([(CACHE.to_owned(), Node { data: known().games[0].clone(), time: 1 })]);
    world::put(&tree, 0);
    let r6 = world::r6();
    std::fs::remove_file(r6.join("scripts")).unwrap();
    std::fs::create_dir_all(r6.join("scripts")).unwrap();
    if Path::new("extra").exists() {
        std::fs::remove_dir_all("extra").unwrap();
    }
    for (p, text) in scripts {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
    if !hints.is_empty() {
        let dir = r6.join("config/redsUserHints");
        std::fs::create_dir_all(&dir).unwrap();
        for (n, t) in hints {
            std::fs::write(dir.join(n), t).unwrap();
        }
    }
}

fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}

fn compile(extra: &[&str]) -> Box<SccResult> {
    // through the interface that other programs use
    unsafe {
        let mut s = scc_settings_new(c(world::r6().to_str().unwrap()).as_ptr().cast::<c_char>().cast());
        for e in extra {
            scc_settings_add_script_path(&mut s, c(e).as_ptr().cast());
        }
        scc_compile(s)
    }
}

fn error(r: &SccResult) -> Option<String> {
    match r {
        SccResult::Success(_) => None,
        SccResult::Error(e) => Some(e.to_string()),
    }
}

// ---------------------------------------------------------------- reports

#[derive(Clone, Copy, Debug, PartialEq)]
enum Content {
    None,
    Fine,
    /// fails to find `missing`
    Ref,
    /// fails to find `Missing`
    Fn,
    Both,
    /// the same, and a warning
    Wrong,
    Syntax,
}
const CONTENTS: [Content; 7] = [Content::None, Content::Fine, Content::Ref, Content::Fn, Content::Both, Content::Wrong, Content::Syntax];

impl Content {
    fn text(self, n: usize) -> Option<String> {
        let (r, f) = (
            format!("func R{n}() -> Int32 {{\n  return missing;\n}}\n"),
            format!("\nfunc F{n}() {{\n\tMissing(1);\n}}\n"),
        );
        Some(match self {
            Content::None => return None,
            Content::Fine => format!("func Fine{n}() -> Int32 = {n}\n"),
            Content::Ref => r,
            Content::Fn => f,
            Content::Both => r + &f,
            Content::Wrong => format!("func W{n}() -> Int32 {{ let unused: Int32; return \"x\"; }}"),
            Content::Syntax => format!("func S{n}( {{\n"),
        })
    }
    /// code, text and line of each error
    fn errors(self) -> Vec<(&'static str, &'static str, &'static str)> {
        let r = ("UNRESOLVED_REF", "missing", "  return missing;\n");
        let f = ("UNRESOLVED_FN", "Missing(1)", "\tMissing(1);\n");
        match self {
            Content::Ref => vec![r],
            Content::Fn => vec![f],
            Content::Both => vec![r, f],
            Content::Wrong => vec![("TYPE_ERR", "\"x\"", "func W() -> Int32 { let unused: Int32; return \"x\"; }")],
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug)]
struct Hint {
    code: &'static str,
    id: &'static str,
    message: &'static str,
    file: Option<&'static str>,
    span: Option<&'static str>,
    line: Option<&'static str>,
}

impl Hint {
    fn toml(&self) -> String {
        let mut o = format!("[[{}]]\nid = \"{}\"\nmessage = \"{}\"\n", self.code, self.id, self.message);
        for (k, v) in [("file", self.file), ("span_starts_with", self.span), ("line_contains", self.line)] {
            if let Some(v) = v {
                o += &format!("{k} = '{v}'\n");
            }
        }
        o + "\n"
    }
    fn says(&self, code: &str, file: Option<&str>, span: &str, line: &str) -> bool {
        self.code == code
            && (self.file.is_none() || self.file == file)
            && (self.span.is_some_and(|s| span.starts_with(s)) || self.line.is_some_and(|l| line.contains(l)))
    }
}

/// where scripts stand: path, the mod as reports name it, the path that hints name
const SPOTS: [(&str, &str, Option<&str>); 6] = [
    ("r6/scripts/mod_a/x.reds", "mod_a", Some("mod_a/x.reds")),
    ("r6/scripts/top.reds", "top.reds", Some("top.reds")),
    ("r6/scripts/mod_a/deep/er/z.reds", "mod_a", Some("mod_a/deep/er/z.reds")),
    ("r6/scripts/mod_b/x.reds", "mod_b", Some("mod_b/x.reds")),
    ("extra/dir/mod_c/y.reds", "y.reds", None),
    ("extra/single.reds", "single.reds", None),
];

fn list(text: &str, after: &str) -> Option<Vec<String>> {
    let mut lines = text.lines().skip_while(|l| !l.contains(after));
    lines.next()?;
    let mut all: Vec<String> = lines.map_while(|l| l.strip_prefix("- ")).map(String::from).collect();
    all.sort();
    Some(all)
}

fn report(files: &[(usize, Content)], hints: &[Hint], texts: &[(&str, String)], cx: &mut Cx) -> Result<(), Fail> {
    let scripts: Vec<(PathBuf, String)> = files
        .iter()
        .enumerate()
        .filter_map(|(n, (spot, c))| Some((SPOTS[*spot].0.into(), c.text(n)?)))
        .collect();
    install(&scripts, texts);
    cx.state();
    cx.step();
    cx.trace();
    let key = files.iter().map(|(s, c)| format!("{}: {c:?}", SPOTS[*s].0)).collect::<Vec<_>>().join(", ")
        + &hints.iter().map(|h| format!(" {}", h.toml().replace('\n', " "))).collect::<String>();
    cx.case(|| key.clone());
    cx.sample(|| key.clone());
    let r = compile(&["extra/dir", "extra/single.reds"]);
    let bad = |what: String| fail(key.clone(), format!("{what}\n{}\n{}", error(&r).unwrap_or("succeeded".into()), texts.iter().map(|t| t.1.as_str()).collect::<String>()));
    let syntax: BTreeSet<&str> = files.iter().filter(|f| f.1 == Content::Syntax).map(|f| SPOTS[f.0].1).collect();
    let wrong: BTreeSet<&str> = files.iter().filter(|f| !f.1.errors().is_empty()).map(|f| SPOTS[f.0].1).collect();
    let Some(text) = error(&r) else {
        if syntax.is_empty() && wrong.is_empty() {
            return Ok(());
        }
        return bad("scripts that are wrong were accepted".into());
    };
    if syntax.is_empty() && wrong.is_empty() {
        return bad("scripts that are right were refused".into());
    }
    let mods = list(&text, "caused by mods listed below").unwrap_or_default();
    if syntax.is_empty() {
        if mods != wrong.iter().copied().collect::<Vec<_>>() {
            return bad(format!("the report names {mods:?}, the mods at fault are {wrong:?}"));
        }
    } else {
        // reading stops at the first file that cannot be read
        if mods.len() != 1 || !syntax.contains(&*mods[0]) {
            return bad(format!("the report names {mods:?}, the mods at fault are {syntax:?}"));
        }
    }
    let mut advice = BTreeSet::new();
    if syntax.is_empty() {
        for (spot, c) in files {
            for (code, span, line) in c.errors() {
                if let Some(h) = hints.iter().find(|h| h.says(code, SPOTS[*spot].2, span, line)) {
                    advice.insert(h);
                }
            }
        }
    }
    // of several with one id, one is given
    let ids: BTreeSet<&str> = advice.iter().map(|h| h.id).collect();
    let told = list(&text, "recommended steps").unwrap_or_default();
    let usual = text.contains("You should check if these mods are outdated");
    let fits = told.len() == ids.len()
        && told.iter().all(|t| advice.iter().any(|h| h.message == t))
        && ids.iter().all(|i| advice.iter().any(|h| h.id == *i && told.iter().any(|t| t == h.message)))
        && usual == advice.is_empty();
    if !fits {
        return bad(format!("the report gives {told:?}, the hints that fit are {advice:?}"));
    }
    Ok(())
}

impl PartialEq for Hint {
    fn eq(&self, o: &Self) -> bool {
        self.toml() == o.toml()
    }
}
impl Eq for Hint {}
impl PartialOrd for Hint {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Hint {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.toml().cmp(&o.toml())
    }
}

fn mods(ch: &mut Chooser, cx: &mut Cx, most: usize) -> Result<(), Fail> {
    let n = ch.pick(most) + 1;
    let mut files = vec![];
    let mut low = 0;
    for _ in 0..n {
        if low == SPOTS.len() {
            return Ok(());
        }
        let spot = low + ch.pick(SPOTS.len() - low);
        low = spot + 1;
        files.push((spot, CONTENTS[1 + ch.pick(CONTENTS.len() - 1)]));
    }
    let hint = Hint {
        code: "UNRESOLVED_REF",
        id: "1",
        message: "do this",
        file: None,
        span: None,
        line: Some("return"),
    };
    let hints = if ch.flag() { vec![hint] } else { vec![] };
    let texts: Vec<_> = hints.iter().map(|h| ("a.toml", h.toml())).collect();
    report(&files, &hints, &texts, cx)
}

fn some_hint(ch: &mut Chooser, id: &'static str, message: &'static str, wide: bool) -> Hint {
    let code = *ch.of(if wide { &["UNRESOLVED_REF", "UNRESOLVED_FN", "TYPE_ERR"][..] } else { &["UNRESOLVED_REF", "UNRESOLVED_FN"] });
    let file = *ch.of(if wide {
        &[None, Some("mod_a/x.reds"), Some("top.reds"), Some("x.reds"), Some("y.reds"), Some("mod_a")][..]
    } else {
        &[None, Some("mod_a/x.reds")]
    });
    let span = *ch.of(if wide { &[None, Some("missing"), Some("Mis"), Some("issing"), Some("\"")][..] } else { &[None, Some("miss"), Some("Missing(")] });
    let line = *ch.of(if wide { &[None, Some("return"), Some("Missing(1);"), Some("func")][..] } else { &[None, Some("return")] });
    Hint { code, id, message, file, span, line }
}

const FILES: [&[(usize, Content)]; 8] = [
    &[(0, Content::Ref)],
    &[(0, Content::Fn)],
    &[(0, Content::Both)],
    &[(0, Content::Ref), (1, Content::Ref)],
    &[(0, Content::Fn), (4, Content::Both)],
    &[(1, Content::Both), (3, Content::Fine)],
    &[(0, Content::Wrong), (5, Content::Ref)],
    &[(0, Content::Fine), (3, Content::Syntax)],
];

fn one_hint(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let files = *ch.of(&FILES);
    let h = some_hint(ch, "1", "do this", true);
    let texts = [("a.toml", h.toml())];
    report(files, &[h], &texts, cx)
}

fn two_hints(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let files = *ch.of(&FILES[..5]);
    let a = some_hint(ch, "1", "do this", false);
    let same = ch.flag();
    let b = some_hint(ch, if same { "1" } else { "2" }, "do that", false);
    match ch.pick(3) {
        0 => {
            let texts = [("a.toml", a.toml() + &b.toml())];
            report(files, &[a, b], &texts, cx)
        }
        1 => {
            if a.code == b.code {
                // nothing says which of the files comes first
                return Ok(());
            }
            let texts = [("a.toml", a.toml()), ("b.toml", b.toml())];
            report(files, &[a, b], &texts, cx)
        }
        _ => {
            // other files do not count
            let texts = [("a.toml", a.toml()), ("b.txt", b.toml()), ("toml", "]".into())];
            report(files, &[a], &texts, cx)
        }
    }
}

fn bad_hints(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let files = *ch.of(&FILES);
    let text = *ch.of(&["]", "[[UNRESOLVED_REF]]\n", "UNRESOLVED_REF = 1\n", "[[UNRESOLVED_REF]]\nid = 1\nmessage = \"x\"\n"]);
    report(files, &[], &[("a.toml", text.into())], cx)
}

// ---------------------------------------------------------------- messages

fn copies(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let content = *ch.of(&[Content::Fine, Content::Ref, Content::Both]);
    let name = *ch.of(&["mod_a", "m", "żółw", "模块"]);
    install(&[(format!("r6/scripts/{name}/a.reds").into(), content.text(0).unwrap())], &[]);
    let r = compile(&[]);
    let text = error(&r).unwrap_or_default();
    cx.case(|| format!("{content:?} in {name}"));
    if error(&r).is_some() == scc_get_success(&r).is_some() {
        return fail(format!("{content:?}"), "an error and a success at once");
    }
    for size in 0..text.len() + 4 {
        cx.state();
        cx.step();
        cx.trace();
        // 8 bytes on each side may not change
        let mut buf = vec![0xA5u8; size + 16];
        let n = unsafe { scc_copy_error(&r, buf.as_mut_ptr().add(8), size) };
        let key = format!("{content:?} in {name}, {size} bytes of room");
        let want = if error(&r).is_some() { text.len().min(size.saturating_sub(1)) } else { 0 };
        if n != want {
            return fail(key, format!("{n} bytes were copied, expected {want}"));
        }
        if buf[..8].iter().chain(&buf[8 + size..]).any(|b| *b != 0xA5) {
            return fail(key, "bytes outside the room were changed");
        }
        if error(&r).is_some() && size > 0 && (buf[8..8 + n] != text.as_bytes()[..n] || buf[8 + n] != 0) {
            return fail(key, format!("what was copied is {:?}", String::from_utf8_lossy(&buf[8..8 + size])));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- references

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ref {
    kind: u8,
    native: bool,
    name: String,
    parent: String,
    path: String,
    line: usize,
}

/// a declaration: its text, and the references to it (kind, native, name, parent, line)
type Decl = (&'static str, &'static [(u8, bool, &'static str, &'static str, usize)]);

const DECLS: [Decl; 14] = [
    ("func Glob#() {}\n", &[(3, false, "Glob#;", "", 0)]),
    ("public\nstatic func Args#(a: Int32, opt b: String) -> Int32 {\n  return a;\n}\n", &[(3, false, "Args#;Int32String", "", 0)]),
    ("native func Nat#(a: Int32);\n", &[(3, true, "Nat#", "", 0)]),
    ("class K# {}\n", &[(1, false, "K#", "", 0)]),
    (
        "// about\npublic class M# extends Game {\n  private let x: Int32;\n\n  @if(true)\n  func G(a: ref<Game>) {}\n  static func H() -> Bool = true\n}\n",
        &[
            (1, false, "M#", "", 1),
            (2, false, "x", "M#", 2),
            (3, false, "G;Game", "M#", 4),
            (3, false, "H;", "M#", 6),
        ],
    ),
    (
        "native class O# {\n native let q: Int32; native func P();\n}\n",
        &[(1, true, "O#", "", 0), (2, true, "q", "O#", 1), (3, true, "P", "O#", 1)],
    ),
    ("struct S# {\n  let a: Int32;\n  let b: Int32;\n}\n", &[(1, false, "S#", "", 0), (2, false, "a", "S#", 1), (2, false, "b", "S#", 2)]),
    ("enum E# {\n a = 1,\n b = 2,\n}\n", &[(4, false, "E#", "", 0)]),
    ("@addMethod(Game)\nfunc Ex#(a: Int32) {}\n", &[(3, false, "Ex#;Int32", "Game", 0)]),
    ("\n@addField(Game)\n@runtimeProperty(\"a\", \"b\")\npublic let f#: Int32;\n", &[(2, false, "f#", "Game", 1)]),
    ("@if(false)\nfunc Gone#() {}\n@if(!false)\nfunc Here#() {}\n", &[(3, false, "Here#;", "", 2)]),
    ("/* a\n comment */ func After#() {} func Same#() {}", &[(3, false, "After#;", "", 1), (3, false, "Same#;", "", 1)]),
    ("class B# extends T# {}\nclass T# {\n func Z() {}\n}\n", &[(1, false, "B#", "", 0), (1, false, "T#", "", 1), (3, false, "Z;", "T#", 2)]),
    ("func Loc#() {\n  let a: Int32;\n  let b: ref<Game>;\n}\n", &[(3, false, "Loc#;", "", 0)]),
];

fn text_of(s: StrWithLen<'_>) -> String {
    let (p, n): (*const u8, usize) = unsafe { std::mem::transmute(s) };
    if p.is_null() || n == 0 {
        return String::new();
    }
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}

fn refs(ch: &mut Chooser, cx: &mut Cx, most: usize) -> Result<(), Fail> {
    let n = ch.pick(most) + 1;
    let lead = *ch.of(&["", "\n\n", "// ünicode: 模块\n\n"]);
    let module = if n <= 2 { *ch.of(&["", "module M.N\n"]) } else { "" };
    let two = ch.flag();
    let mut files: Vec<(PathBuf, String)> = vec![("r6/scripts/mod_a/first.reds".into(), format!("{lead}{module}"))];
    let mut want: Vec<Ref> = vec![];
    for i in 0..n {
        if two && i == 1 {
            files.push(("extra/dir/second.reds".into(), module.to_owned()));
        }
        let d = *ch.of(&DECLS);
        let file = files.last_mut().unwrap();
        let at = file.1.matches('\n').count();
        let id = i.to_string();
        let full = |s: &str| {
            let s = s.replace('#', &id);
            if module.is_empty() || s.is_empty() || s == "Game" { s } else { format!("M.N.{s}") }
        };
        for (kind, native, name, parent, line) in d.1 {
            want.push(Ref {
                kind: *kind,
                native: *native,
                name: if parent.is_empty() { full(name) } else { name.replace('#', &id) },
                parent: full(parent),
                path: file.0.to_str().unwrap().into(),
                line: at + line,
            });
        }
        file.1 += &d.0.replace('#', &id);
    }
    want.sort();
    install(&files, &[]);
    let r = compile(&["extra/dir"]);
    let key = files.iter().map(|f| f.1.replace('\n', " ")).collect::<Vec<_>>().join(" / ");
    cx.state();
    cx.step();
    cx.trace();
    cx.case(|| key.clone());
    cx.sample(|| key.clone());
    let Some(o) = scc_get_success(&r) else {
        return fail(key, format!("it is refused: {}", error(&r).unwrap_or_default()));
    };
    let mut got: Vec<Ref> = (0..scc_output_source_ref_count(o))
        .map(|i| {
            let x = unsafe { &*scc_output_get_source_ref(o, i) };
            Ref {
                kind: scc_source_ref_type(o, x) as u8,
                native: scc_source_ref_is_native(o, x),
                name: text_of(scc_source_ref_name(o, x)),
                parent: text_of(scc_source_ref_parent_name(o, x)),
                path: text_of(scc_source_ref_path(o, x)),
                line: scc_source_ref_line(o, x),
            }
        })
        .collect();
    got.sort();
    if got != want {
        let only = |a: &[Ref], b: &[Ref]| a.iter().filter(|x| !b.contains(x)).map(|x| format!("  {x:?}\n")).collect::<String>();
        return fail(key.clone(), format!("{key}\nthe references that are wrong:\n{}those that were expected:\n{}", only(&got, &want), only(&want, &got)));
    }
    Ok(())
}

// ---------------------------------------------------------------- positions

fn positions(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let texts = ["", "a", "\n", "ab\n", "\n\nc", "ż\nab\r\n", "ab\nc\n\nd", "\nżb€c"];
    let n = ch.pick(3) + 1;
    let parts: Vec<&str> = (0..n).map(|_| *ch.of(&texts)).collect();
    positions_of(&parts, cx)
}

/// every text of some length
fn letters(ch: &mut Chooser, cx: &mut Cx, most: usize) -> Result<(), Fail> {
    let mut text = String::new();
    for _ in 0..most {
        match ch.pick(6) {
            0 => break,
            n => text.push(['a', 'ż', '€', '\n', '\u{1f600}'][n - 1]),
        }
    }
    positions_of(if ch.flag() { vec!["ż\n", text.as_str()] } else { vec![text.as_str()] }.as_slice(), cx)
}

fn positions_of(parts: &[&str], cx: &mut Cx) -> Result<(), Fail> {
    let n = parts.len();
    let mut files = Files::new();
    // (first position, text)
    let mut at = vec![];
    let mut low = 0;
    for (i, p) in parts.iter().enumerate() {
        files.add(format!("{i}.reds").into(), (*p).into());
        at.push((low, *p));
        low += p.len() + 1;
    }
    let key = format!("{parts:?}");
    cx.case(|| key.clone());
    if files.is_empty() || files.files().count() != n {
        return fail(key, "a file is missing");
    }
    let place = |pos: usize| -> Option<(usize, usize, usize)> {
        let i = at.iter().rposition(|(l, t)| pos >= *l && pos <= l + t.len())?;
        let (l, t) = at[i];
        let before = t.get(..pos - l)?;
        let line = before.matches('\n').count();
        let col = before.rsplit('\n').next().unwrap().chars().count();
        Some((i, line, col))
    };
    for a in 0..low + 2 {
        let file = files.lookup_file(Pos::new(a));
        let want = at.iter().position(|(l, t)| a >= *l && a <= l + t.len());
        let got = file.map(|f| f.path().to_str().unwrap().to_owned());
        cx.state();
        cx.step();
        cx.trace();
        if got != want.map(|i| format!("{i}.reds")) {
            return fail(format!("{key} at {a}"), format!("the file at {a} is {got:?}, expected {want:?}"));
        }
        let Some((i, line, col)) = place(a) else { continue };
        for b in a..=at[i].0 + at[i].1.len() {
            let Some((_, line2, col2)) = place(b) else { continue };
            cx.step();
            let Some(loc) = files.lookup(Span::new(Pos::new(a), Pos::new(b))) else {
                return fail(format!("{key} at {a} to {b}"), "no place");
            };
            let text = at[i].1;
            let whole = text.split_inclusive('\n').nth(line).unwrap_or("");
            let ok = (loc.start.line, loc.start.col, loc.end.line, loc.end.col) == (line, col, line2, col2)
                && loc.enclosing_line() == whole
                && loc.file.source_slice(Span::new(Pos::new(a), Pos::new(b))) == &text[a - at[i].0..b - at[i].0]
                && loc.to_string() == format!("{i}.reds:{}:{}", line + 1, col + 1);
            if !ok {
                return fail(format!("{key} at {a} to {b}"), format!("{loc:?} {:?} instead of {line}:{col} to {line2}:{col2} {whole:?}", loc.enclosing_line()));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- which files

/// names in r6/scripts and whether they are scripts
const NAMES: [(&str, bool); 8] = [
    ("a.reds", true),
    ("mod/b.reds", true),
    ("mod/deep/er/c.reds", true),
    ("d.txt", false),
    ("reds", false),
    ("mod/e.reds.bak", false),
    ("f.reds/g.reds", true),
    ("ż h.reds", true),
];

fn which(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    let base = *ch.of(&["r6/scripts", "extra/dir"]);
    let set = ch.pick(1 << NAMES.len());
    let bits = |i: usize| set >> i & 1 == 1;
    let files: Vec<(PathBuf, String)> = (0..NAMES.len())
        .filter(|i| bits(*i))
        .map(|i| (format!("{base}/{}", NAMES[i].0).into(), format!("func F{i}() {{}}\n")))
        .collect();
    let key = format!("{:?}", files.iter().map(|f| f.0.display().to_string()).collect::<Vec<_>>());
    cx.case(|| key.clone());
    install(&files, &[]);
    std::fs::create_dir_all("extra/dir").unwrap();
    let r = compile(&["extra/dir"]);
    cx.state();
    cx.step();
    cx.trace();
    let Some(o) = scc_get_success(&r) else {
        return fail(key, format!("it is refused: {}", error(&r).unwrap_or_default()));
    };
    let got: BTreeSet<String> = (0..scc_output_source_ref_count(o))
        .map(|i| text_of(scc_source_ref_name(o, unsafe { &*scc_output_get_source_ref(o, i) })))
        .collect();
    let want: BTreeSet<String> = (0..NAMES.len()).filter(|i| bits(*i) && NAMES[*i].1).map(|i| format!("F{i};")).collect();
    if got != want {
        return fail(key, format!("the scripts that were compiled define {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// the same, with names that are left out, and paths of single files
fn excluded(ch: &mut Chooser, cx: &mut Cx) -> Result<(), Fail> {
    use redscript_compiler::source_map::SourceFilter;
    const OUT: [&str; 7] = ["a", "mod", "f", "f.reds", "ż h", "b", "d"];
    let base = "r6/scripts";
    let files: Vec<(PathBuf, String)> = NAMES.iter().map(|(n, _)| (format!("{base}/{n}").into(), "\n".into())).collect();
    let set = ch.pick(1 << OUT.len());
    let out: Vec<&str> = (0..OUT.len()).filter(|i| set >> i & 1 == 1).map(|i| OUT[i]).collect();
    let from = ch.pick(NAMES.len() + 1);
    install(&files, &[]);
    cx.state();
    cx.step();
    cx.trace();
    let path: PathBuf = match from {
        0 => base.into(),
        n => format!("{base}/{}", NAMES[n - 1].0).into(),
    };
    let key = format!("{} without {out:?}", path.display());
    cx.case(|| key.clone());
    let got = match Files::from_dirs(&[&path], &SourceFilter::Exclude(out.iter().map(|s| (*s).to_owned()).collect())) {
        Ok(f) => f,
        Err(e) => return fail(key, format!("refused: {e}")),
    };
    let got: BTreeSet<String> = got.files().map(|f| f.path().strip_prefix(base).unwrap().to_str().unwrap().to_owned()).collect();
    let want: BTreeSet<String> = match from {
        // what is named itself is read
        n if n > 0 => [NAMES[n - 1].0.to_owned()].into(),
        _ => NAMES
            .iter()
            .filter(|(n, script)| *script && !out.contains(&n.split_once('/').map_or(n.trim_end_matches(".reds"), |x| x.0)))
            .map(|(n, _)| (*n).to_owned())
            .collect(),
    };
    if got != want {
        return fail(key, format!("these are read: {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    known();
    ctx.explore("texts of one file", |ch, cx| letters(ch, cx, if ctx.thorough() { 7 } else { 5 }));
    ctx.explore("files left out", excluded);
    ctx.explore("mods at fault", |ch, cx| mods(ch, cx, if ctx.thorough() { 6 } else { 4 }));
    ctx.explore("one hint", one_hint);
    ctx.explore("two hints", two_hints);
    ctx.explore("broken hints", bad_hints);
    ctx.explore("copies of messages", copies);
    ctx.explore("references", |ch, cx| refs(ch, cx, if ctx.thorough() { 3 } else { 2 }));
    ctx.explore("positions", positions);
    ctx.explore("files that are scripts", which);
}
