exec(open('/verif/tools/seeds2.py').read().split('SEEDS = [')[0])
SEEDS = [
dict(id='b24', property='C11', needs='a reference type nested in a reference (or in a generic argument) when a function name is built',
 breaks='only the outer reference is left out of the name of a function',
 edits=[('core/src/ast.rs', '(Kind::Ref | Kind::WRef, [arg]) => arg.unwrapped(),', '(Kind::Ref | Kind::WRef, [arg]) => arg,')],
 main=PRE + """
use redscript::ast::TypeName;
fn main() {
    let t = TypeName::from_repr("wref:ref:Foo");
    assert_eq!(t.mangled().as_ref(), "Foo");
    assert_eq!(TypeName::from_repr("array:wref:Foo").mangled().as_ref(), "array<Foo>");
}"""),
dict(id='b25', property='C11', needs='a stored type name with four or more levels',
 breaks='the levels below the third are read as one name',
 edits=[('core/src/ast.rs', "let mut parts = str.split(':');", "let mut parts = str.splitn(4, ':');")],
 main=PRE + """
use redscript::ast::TypeName;
fn main() {
    let t = TypeName::from_repr("array:script_ref:array:wref:Foo");
    assert_eq!(t.pretty().as_ref(), "array<script_ref<array<wref<Foo>>>>");
}"""),
]
