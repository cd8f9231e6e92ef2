TPL='/verif/tools/demo_opts'
O='scc/cli/src/opts.rs'
PRE='#[path = "/repo/scc/cli/src/opts.rs"]\n#[allow(dead_code)]\nmod opts;\n'
SEEDS=[
dict(id='b26',property='C18',tpl=TPL,needs='a thread count that is not a number or too large',breaks='a malformed thread count is taken for the default instead of being refused',
 edits=[(O,'.parse(|s| s.map(|s| s.parse::<u8>()).unwrap_or(Ok(Opts::DEFAULT_THREADS)))','.map(|s| s.and_then(|s| s.parse::<u8>().ok()).unwrap_or(Opts::DEFAULT_THREADS))')],
 main=PRE+'''
fn main() {
    assert!(opts::Opts::load(&["-compile", "x", "-threads", "4"]).is_ok());
    assert!(opts::Opts::load(&["-compile", "x", "-threads", "256"]).is_err());
}'''),
dict(id='b27',property='C18',tpl=TPL,needs='a warning whose name holds the prefix again',breaks='the prefix -W is taken off more than once',
 edits=[(O,'s.strip_prefix(name).map(str::to_owned).ok_or("could not extract name")','s.split(name).last().map(str::to_owned).ok_or("could not extract name")')],
 main=PRE+'''
fn main() {
    let o = opts::Opts::load(&["-compile", "x", "-Wno-Wx"]).map_err(|_| ()).unwrap();
    assert_eq!(o.warnings, ["no-Wx"]);
}'''),
dict(id='b28',property='C19',tpl=TPL,needs='several quoted paths ending in a backslash whose pieces end up in one argument',breaks='only the first path keeps its closing backslash',
 edits=[(O,'''let slashful = arg.replace('"', "\\\\\\"")''','''let slashful = arg.replacen('"', "\\\\\\"", 1)''')],
 main=PRE+r'''
fn main() {
    // "C:\a\" -x "C:\b\" as the system splits it
    let got = opts::fix_args(vec!["C:\\a\" -x C:\\b\"".to_owned()]);
    assert_eq!(got, ["C:\\a\\", "-x", "C:\\b\\"]);
}'''),
dict(id='b29',property='C19',tpl=TPL,needs='a path ending in a backslash that is the last argument, or followed by more than one such path',breaks='only an empty argument at the end is removed',
 edits=[(O,'fixed_args.retain(|s| !s.is_empty());','while fixed_args.last().map_or(false, String::is_empty) {\n        fixed_args.pop();\n    }')],
 main=PRE+'''
fn main() {
    let got = opts::fix_args(vec!["a".to_owned(), "".to_owned(), "b\\" c".to_owned()]);
    assert!(got.iter().all(|a| !a.is_empty()), "{got:?}");
}'''),
]
