PRE = '''
#![allow(dead_code, unused_imports)]
use redscript::bundle::*;
use redscript::bytecode::*;
use redscript::definition::*;
use redscript::Ref;
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};
pub struct P { pub pool: ConstantPool, pub main: PoolIndex<Function>, pub void: PoolIndex<Type>, pub int: PoolIndex<Type> }
pub fn function(code: Vec<Instr<Offset>>) -> Function {
    Function {
        visibility: Visibility::Public, flags: FunctionFlags::new().with_is_static(true).with_has_body(true), source: None, return_type: None,
        unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![],
    }
}
impl P {
    pub fn new() -> P {
        let mut pool = ConstantPool::default();
        pool.names.add(Ref::from("zero"));
        pool.reserve::<Definition>();
        let n = pool.names.add(Ref::from("Void"));
        let void = pool.add_definition(Definition::type_(n, Type::Prim));
        let n = pool.names.add(Ref::from("Int32"));
        let int = pool.add_definition(Definition::type_(n, Type::Prim));
        let n = pool.names.add(Ref::from("main"));
        let main = pool.add_definition(Definition::function(n, PoolIndex::UNDEFINED, function(vec![])));
        P { pool, main, void, int }
    }
    pub fn name(&mut self, s: &str) -> PoolIndex<CName> { self.pool.names.add(Ref::from(s)) }
    pub fn fun(&mut self, name: &str) -> PoolIndex<Function> {
        let n = self.name(name);
        let mut f = function(vec![]);
        f.flags = FunctionFlags::new().with_is_static(true).with_is_native(true);
        self.pool.add_definition(Definition::function(n, PoolIndex::UNDEFINED, f))
    }
    pub fn local(&mut self, name: &str) -> PoolIndex<Local> {
        let n = self.name(name);
        let main = self.main;
        let l = self.pool.add_definition(Definition::local(n, main, Local { type_: self.int, flags: LocalFlags::new() }));
        self.pool.function_mut(main).unwrap().locals.push(l);
        l
    }
    pub fn call(&self, f: PoolIndex<Function>, args: Vec<Vec<Instr<Offset>>>) -> Vec<Instr<Offset>> {
        let mut v = vec![Instr::InvokeStatic(Offset::new(0), 0, f, 0)];
        for a in args { v.extend(a); }
        v.push(Instr::ParamEnd);
        v
    }
    pub fn set(&mut self, code: Vec<Instr<Offset>>) { let m = self.main; self.pool.function_mut(m).unwrap().code = Code::new(code); }
    pub fn text<A>(&self, i: PoolIndex<A>) -> Result<String, String> {
        let mut out = vec![];
        write_definition(&mut out, self.pool.definition(i).unwrap(), &self.pool, 0, OutputMode::Code { verbose: false }).map_err(|e| e.to_string())?;
        Ok(String::from_utf8(out).unwrap())
    }
    pub fn main_text(&self) -> String { self.text(self.main).unwrap() }
}
/// collects code with labels
pub struct A { pub code: Vec<Instr<Label>>, pub next: usize }
pub fn lines(s: &str) -> Vec<String> { s.lines().map(|l| l.trim().to_owned()).filter(|l| !l.is_empty()).collect() }
/// labelled code to offsets
pub fn resolve(code: Vec<(Option<usize>, Vec<usize>, Instr<Offset>)>) -> Vec<Instr<Offset>> {
    // (label at this instruction, labels it refers to, the instruction)
    let mut pos = 0u16;
    let mut at = std::collections::HashMap::new();
    let mut starts = vec![];
    for (l, _, i) in &code { if let Some(l) = l { at.insert(*l, pos); } starts.push(pos); if !matches!(i, Instr::Target(_)) { pos += i.size(); } }
    let mut out = vec![];
    for ((_, refs, i), p) in code.into_iter().zip(starts) {
        let d = |n: usize| Offset::new((i32::from(at[&refs[n]]) - i32::from(p)) as i16);
        out.push(match i {
            Instr::Jump(_) => Instr::Jump(d(0)),
            Instr::JumpIfFalse(_) => Instr::JumpIfFalse(d(0)),
            Instr::Switch(t, _) => Instr::Switch(t, d(0)),
            Instr::SwitchLabel(_, _) => Instr::SwitchLabel(d(0), d(1)),
            Instr::Target(_) => continue,
            other => other,
        });
    }
    out
}
pub const O: Offset = Offset { value: 0 };
pub fn l(i: Vec<Instr<Offset>>) -> Vec<(Option<usize>, Vec<usize>, Instr<Offset>)> { i.into_iter().map(|i| (None, vec![], i)).collect() }
pub fn j(i: Instr<Offset>, refs: Vec<usize>) -> Vec<(Option<usize>, Vec<usize>, Instr<Offset>)> { vec![(None, refs, i)] }
pub fn at(n: usize) -> Vec<(Option<usize>, Vec<usize>, Instr<Offset>)> { vec![(Some(n), vec![], Instr::Target(O))] }
'''.replace('pub struct A { pub code: Vec<Instr<Label>>, pub next: usize }\n', '')
SEEDS = [
dict(id='b11', property='C12', needs='a while loop whose body ends in an if that itself jumps back (an if as the last statement of an outer while nested in a loop) or a break out of a loop inside an if',
 breaks='a break inside an if inside a while is taken for an else branch: the statements after it run on the wrong path',
 edits=[('decompiler/src/lib.rs', 'Some(BlockContext::Loop { epilogue, .. }) if jump_loc == epilogue => {', 'Some(BlockContext::Loop { prologue, epilogue }) if jump_loc == epilogue && self.path_end < epilogue && self.code.pos() != self.path_end.max(prologue) => {')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let (c, d, f) = (p.fun("c"), p.fun("d"), p.fun("f"));
    let mut code = at(0);
    code.extend(j(Instr::JumpIfFalse(O), vec![1]));
    code.extend(l(p.call(c, vec![])));
    code.extend(j(Instr::JumpIfFalse(O), vec![2]));
    code.extend(l(p.call(d, vec![])));
    code.extend(j(Instr::Jump(O), vec![1]));
    code.extend(at(2));
    code.extend(l(p.call(f, vec![])));
    code.extend(j(Instr::Jump(O), vec![0]));
    code.extend(at(1));
    code.extend(l(vec![Instr::Nop]));
    p.set(resolve(code));
    let t = p.main_text();
    println!("{t}");
    assert!(t.contains("break"));
    assert!(!t.contains("else"));
}'''),
dict(id='b12', property='C12', needs='if/else whose true branch ends in an if/else of its own',
 breaks='the jump over the else branch is looked for in the wrong branch, so an else block gets lost or gains statements',
 edits=[('decompiler/src/lib.rs', 'Expr::If(_, if_, Some(else_), _) => resolve_jump(if_).or_else(move || resolve_jump(else_)),', 'Expr::If(_, if_, Some(_), _) => resolve_jump(if_),')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let (c, d, a, b, e, z) = (p.fun("c"), p.fun("d"), p.fun("a"), p.fun("b"), p.fun("e"), p.fun("z"));
    // if c() { if d() { a(); } else { b(); } } else { e(); } z();  with the jump over the outer else shared by the inner else
    let mut code = j(Instr::JumpIfFalse(O), vec![1]);
    code.extend(l(p.call(c, vec![])));
    code.extend(j(Instr::JumpIfFalse(O), vec![2]));
    code.extend(l(p.call(d, vec![])));
    code.extend(l(p.call(a, vec![])));
    code.extend(j(Instr::Jump(O), vec![3]));
    code.extend(at(2));
    code.extend(l(p.call(b, vec![])));
    code.extend(j(Instr::Jump(O), vec![4]));
    code.extend(at(3));
    code.extend(at(1));
    code.extend(l(p.call(e, vec![])));
    code.extend(at(4));
    code.extend(l(p.call(z, vec![])));
    code.extend(l(vec![Instr::Nop]));
    p.set(resolve(code));
    let t = p.main_text();
    println!("{t}");
    assert!(!t.contains("goto"));
}'''),
dict(id='b13', property='C13', needs='an i16 constant below zero or a u8 constant above 127',
 breaks='the constant is printed with the wrong sign',
 edits=[('decompiler/src/lib.rs', 'Instr::U8Const(val) => Expr::Constant(Constant::U32(val.into()), Span::ZERO),', 'Instr::U8Const(val) => Expr::Constant(Constant::U32(val as i8 as u32), Span::ZERO),')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    p.set(vec![Instr::Return, Instr::U8Const(200)]);
    let t = p.main_text();
    println!("{t}");
    assert!(t.contains("return 200u;"));
}'''),
dict(id='b14', property='C13', needs='a call with two arguments in a row left out (Nop) before one that is given',
 breaks='only the first of several omitted arguments is skipped, the next one appears as an empty argument',
 edits=[('decompiler/src/lib.rs', 'while matches!(self.code.peek(), Some(Instr::Skip(_))) || matches!(self.code.peek(), Some(Instr::Nop)) {', 'if matches!(self.code.peek(), Some(Instr::Skip(_) | Instr::Nop)) {')],
 main=PRE + """
fn main() {
    let mut p = P::new();
    let f = p.fun("f");
    let code = p.call(f, vec![vec![Instr::Nop], vec![Instr::Nop], vec![Instr::WeakRefNull]]);
    p.set(code);
    let t = p.main_text();
    println!("{t}");
    assert!(t.contains("f(null);"));
}"""),
dict(id='b15', property='C13', needs='a method of the same name as the running one, called on another class than the parent (super call)',
 breaks='a call of the base method is printed as a call of this',
 edits=[('decompiler/src/lib.rs', 'if self.definition.name == def.name && self.definition.parent != def.parent {', 'if self.definition.name == def.name && self.definition.parent != def.parent && self.definition.parent > def.parent {')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let class = |n, base| Definition::class(n, Class { visibility: Visibility::Public, flags: ClassFlags::new(), base, functions: vec![], fields: vec![], overrides: vec![] });
    let n = p.name("Derived");
    let derived = p.pool.add_definition::<Class>(class(n, PoolIndex::UNDEFINED));
    let n = p.name("Base");
    let base = p.pool.add_definition::<Class>(class(n, PoolIndex::UNDEFINED));
    let n = p.name("run;");
    let mut f = function(vec![]);
    f.flags = FunctionFlags::new();
    let b = p.pool.add_definition::<Function>(Definition::function(n, base, f));
    let code = p.call(b, vec![]);
    let mut f = function(code);
    f.flags = FunctionFlags::new().with_has_body(true);
    let m = p.pool.add_definition::<Function>(Definition::function(n, derived, f));
    let t = p.text(m).unwrap();
    println!("{t}");
    assert!(t.contains("super.run()"));
}'''),
dict(id='b16', property='C14', needs='a string constant with a single quote or a character beyond ASCII, printed and parsed again',
 breaks='backslashes in resource paths are printed unescaped',
 edits=[('decompiler/src/print.rs', 'Constant::String(Literal::Resource, str) => write!(out, "r\\"{}\\"", str::escape_default(str))?,', 'Constant::String(Literal::Resource, str) => write!(out, "r\\"{}\\"", str::escape_default(str).to_string().replace("\\\\\\\\", "\\\\"))?,')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let r = p.pool.resources.add(Ref::from("base\\\\new.ent"));
    p.set(vec![Instr::Return, Instr::ResourceConst(r)]);
    let t = p.main_text();
    println!("{t}");
    assert!(t.contains("r\\"base\\\\\\\\new.ent\\""));
}'''),
dict(id='b17', property='C14', needs='a comparison of comparisons: an equality whose left operand is an ordering, nested the other way round',
 breaks='equality gets the rank of the orderings, so `(a == b) < c` is printed without the parentheses it needs',
 edits=[('core/src/ast.rs', """            BinOp::Equal | BinOp::NotEqual => 4,
            BinOp::Less | BinOp::LessEqual | BinOp::Greater | BinOp::GreaterEqual => 3,""", """            BinOp::Less | BinOp::LessEqual | BinOp::Greater | BinOp::GreaterEqual => 4,
            BinOp::Equal | BinOp::NotEqual => 3,""")],
 main=PRE + """
fn main() {
    let mut p = P::new();
    let x = p.local("x");
    let eq = p.fun("OperatorEqual;Int32Int32;Bool");
    let lt = p.fun("OperatorLess;BoolBool;Bool");
    let inner = p.call(eq, vec![vec![Instr::Local(x)], vec![Instr::I32One]]);
    let mut code = vec![Instr::Return];
    code.extend(p.call(lt, vec![inner, vec![Instr::TrueConst]]));
    p.set(code);
    let t = p.main_text();
    println!("{t}");
    assert!(t.contains("(x == 1) < true"));
}"""),
dict(id='b18', property='C15', needs='a parameter that is both out and optional, or a const out one',
 breaks='an out parameter that is also const is printed without out',
 edits=[('decompiler/src/print.rs', 'let out = if param.flags.is_out() { "out " } else { "" };', 'let out = if param.flags.is_out() && !param.flags.is_const() { "out " } else { "" };')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let n = p.name("x");
    let m = p.main;
    let int = p.int;
    let par = p.pool.add_definition::<Parameter>(Definition::param(n, m, Parameter { type_: int, flags: ParameterFlags::new().with_is_out(true).with_is_const(true) }));
    p.pool.function_mut(m).unwrap().parameters.push(par);
    let t = p.main_text();
    println!("{t}");
    assert!(t.contains("const out x: Int32"));
}'''),
dict(id='b19', property='C15', needs='an enum with a member value beyond 32 bits',
 breaks='the value is printed cut to 32 bits',
 edits=[('decompiler/src/print.rs', 'writeln!(out, "{} = {},", name, val)?;', 'writeln!(out, "{} = {},", name, *val as i32)?;')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let n = p.name("E");
    let e = p.pool.add_definition::<Enum>(Definition::enum_(n, Enum { flags: 0, size: 8, members: vec![], unk1: false }));
    let n = p.name("big");
    let v = p.pool.add_definition::<i64>(Definition::enum_value(n, e, 1 << 40));
    let n = p.name("E");
    p.pool.put_definition(e, Definition::enum_(n, Enum { flags: 0, size: 8, members: vec![v], unk1: false }));
    let t = p.text(e).unwrap();
    println!("{t}");
    assert!(t.contains("big = 1099511627776"));
}'''),
dict(id='b20', property='C16', needs='a class with a native and a script method',
 breaks='a class that has any native method is listed among the orphans as well',
 edits=[('decompiler/src/files.rs', '.all(|fun| fun.flags.is_native()),', '.next().map_or(true, |fun| fun.flags.is_native()),')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let file = p.pool.add_definition::<SourceFile>(Definition::source_file(SourceFile { id: 0, path_hash: 0, path: "x.script".into() }));
    let n = p.name("A");
    let a = p.pool.add_definition::<Class>(Definition::class(n, Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: PoolIndex::UNDEFINED, functions: vec![], fields: vec![], overrides: vec![] }));
    let n1 = p.name("f");
    let mut f = function(vec![]);
    f.flags = FunctionFlags::new().with_is_native(true);
    let f1 = p.pool.add_definition::<Function>(Definition::function(n1, a, f));
    let mut g = function(vec![]);
    g.source = Some(SourceReference { file, line: 3 });
    let f2 = p.pool.add_definition::<Function>(Definition::function(n1, a, g));
    p.pool.class_mut(a).unwrap().functions = vec![f1, f2];
    let idx = FileIndex::from_pool(&p.pool);
    let n = idx.iter().map(|e| e.definitions.iter().filter(|d| d.value.as_class().is_some()).count()).sum::<usize>();
    assert_eq!(n, 1);
}'''),
dict(id='b21', property='C16', needs='a class whose methods are not in the order of their lines',
 breaks='the class is placed by its first method, not by its first line',
 edits=[('core/src/definition.rs', '''                })
                .min(),''', '''                })
                .next(),''')],
 main=PRE + '''
fn main() {
    let mut p = P::new();
    let file = p.pool.add_definition::<SourceFile>(Definition::source_file(SourceFile { id: 0, path_hash: 0, path: "x.script".into() }));
    let n = p.name("A");
    let a = p.pool.add_definition::<Class>(Definition::class(n, Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: PoolIndex::UNDEFINED, functions: vec![], fields: vec![], overrides: vec![] }));
    let n1 = p.name("f");
    let mut add = |parent, line| {
        let mut g = function(vec![]);
        g.source = Some(SourceReference { file, line });
        p.pool.add_definition::<Function>(Definition::function(n1, parent, g))
    };
    let (x, y) = (add(a, 20), add(a, 3));
    add(PoolIndex::UNDEFINED, 10);
    p.pool.class_mut(a).unwrap().functions = vec![x, y];
    let idx = FileIndex::from_pool(&p.pool);
    let e = idx.iter().find(|e| e.path == std::path::Path::new("x.script")).unwrap();
    assert!(e.definitions[0].value.as_class().is_some());
}'''),
dict(id='b22', property='C17', needs='a call of a static function named Cast that has no return type',
 breaks='a bundle with such a call panics the decompiler',
 edits=[('decompiler/src/lib.rs', """.ok_or(Error::DecompileError("Cast without return type"))?;""", """.expect("a cast has a return type");""")],
 main=PRE + """
fn main() {
    let mut p = P::new();
    let f = p.fun("Cast;Int32;Float");
    let code = p.call(f, vec![vec![Instr::I32One]]);
    p.set(code);
    assert!(p.text(p.main).is_err());
}"""),
dict(id='b23', property='C17', needs='a branch that leads behind the end of the code or into the middle of an instruction',
 breaks='the branch is rounded to a place that does not exist: a panic or statements of a wrong path instead of an error',
 edits=[('core/src/bytecode.rs', """                .map_err(|_| CursorError::InvalidInstructionOffset(position))?;
            Ok(idx + 1)""", """                .unwrap_or_else(|idx| idx);
            Ok(idx + 1)""")],
 main=PRE + """
fn main() {
    let mut p = P::new();
    for off in [5i16, 6, 8, 30, 31, 100, 3000] {
        p.set(vec![Instr::JumpIfFalse(Offset::new(off)), Instr::TrueConst, Instr::I32Const(7), Instr::Nop]);
        let _ = p.text(p.main);
        assert!(p.text(p.main).is_err(), "{off}");
    }
}"""),
]
