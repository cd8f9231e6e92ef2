NA = []
NOTES = ("Every check is a bounded, exhaustive enumeration of executions of the real code (stateless model checking with a choice-tree explorer) "
         "against a reference model written independently in the harness; every enumerated model trace is replayed on the implementation.")
TRUST = "Trusts the reference model in the harness (independent of the library), the explorer, and rustc. "
prop("C01", "Saving and loading a bundle loses nothing",
 "A script bundle that is saved and loaded again has the same strings in every string table and the same definitions, in the same order and with every field equal, and saving it once more gives the same bytes. This also holds after definitions or strings were added or changed between loading and saving, and for any number and size of entries.",
 ["inputs", "histories"], "all bundles up to the bounded shapes (string tables, definition tuples, list and string sizes at boundary values), and all short edit histories between load and save",
 "the tests load the one shipped bundle and check a handful of facts; they do not build bundles of other shapes, sizes or histories",
 ["core/src/bundle.rs", "core/src/definition.rs", "core/src/encode.rs", "core/src/decode.rs"],
 [("ScriptBundle load/save", "core/src/bundle.rs"), ("ConstantPool encode/decode", "core/src/bundle.rs"), ("Definition encode/decode", "core/src/definition.rs")],
 ["ScriptBundle::load", "ScriptBundle::save", "ConstantPool accessors"],
 "explicit-state enumeration of bundles and edit histories against a reference model of the bundle, replayed on the real loader and saver",
 TRUST + "Bounds: sections listed in the evidence; sizes at and around powers of two up to 70000 entries.")
prop("C02", "Saved bundle files are well-formed, byte for byte",
 "A saved bundle is exactly the file the format prescribes: magic, version and header words kept from the loaded file, each table at the place, with the byte size, entry count and checksum its header entry gives, names stored once, and every definition's offset and size pointing at its own bytes. The game can therefore read every file the tool writes, and nothing stale is left in it.",
 ["inputs", "histories"], "all bounded bundles and edit histories of C01, all header words at boundary values, and every starting position and previous content of the output",
 "the tests never look at the written bytes",
 ["core/src/bundle.rs", "core/src/encode.rs", "core/src/io.rs"],
 [("Header encode, checksums, table layout", "core/src/bundle.rs"), ("Names dedup and offsets", "core/src/bundle.rs")],
 ["bytes written by ScriptBundle::save"],
 "enumeration of bundles and edit histories; the real output is compared byte for byte with an independent reference writer",
 TRUST + "The reference writer states the layout of the format.")
prop("C03", "Every instruction is written and read exactly",
 "Every instruction with every operand value is stored as its own opcode byte followed by its operands in little-endian layout, and reading those bytes gives the same instruction and operands back. Sequences of instructions keep their order and number whatever the code's length, bytes that are no opcode are refused, and instructions cut short are errors.",
 ["inputs", "programs"], "all instruction kinds x boundary operands, every 16-bit operand value, every byte of wider operands, all short instruction sequences, code lengths at boundary values, all unassigned opcodes, every truncation",
 "the tests read only the instructions that happen to occur in the shipped bundle and never write most of them",
 ["core/src/bytecode.rs", "core/src/encode.rs", "core/src/decode.rs"],
 [("Instr encode/decode", "core/src/bytecode.rs"), ("Code encode/decode", "core/src/bytecode.rs")],
 ["Code::encode", "Code::decode"],
 "exhaustive enumeration of instructions, operands and short sequences against an instruction table kept in the harness",
 TRUST)
prop("C04", "Code sizes and positions are exact and agree everywhere",
 "Every instruction occupies one unit plus its operands at the width the game gives them at run time (eight units for a reference into the pool), the size stored with a body is the sum over its instructions, and the position of an instruction is the sum of the sizes before it. Walking a body with a cursor or an iterator, seeking to a position, and cutting out a range of positions all visit the same instructions at the same positions, whatever sequence of these steps is made.",
 ["programs", "histories"], "all pairs of instructions, all short sequences of size classes, code lengths up to the 16-bit limit, all short histories of cursor steps",
 "the tests walk the shipped bundle's code once; no seeking, ranges or sizes at the limits",
 ["core/src/bytecode.rs"],
 [("Instr::size, CodeCursor, Code::cursor/iter", "core/src/bytecode.rs")],
 ["Code, CodeCursor and CodeIter"],
 "enumeration of code bodies and of cursor operation histories against a position model",
 TRUST + "Code up to 65535 units.")
prop("C05", "Jumps lead exactly to the place they name",
 "Resolving labels turns every jump, conditional, switch, case, skip, context and conditional-expression operand into the distance that leads exactly to the labelled instruction, forward or backward, over any distance that fits in 16 bits. Computing a distance between two positions and applying it are inverse, and resolving labels changes nothing but those operands.",
 ["programs"], "all pairs of boundary positions and all offsets at boundary positions, all label programs up to the bounded length and label count, all operands of all instructions",
 "the compiler's tests fix the distances of a few dozen programs",
 ["core/src/bytecode.rs"],
 [("Location, Offset, resolve_labels", "core/src/bytecode.rs")],
 ["Code::encode of labelled code", "Location and Offset arithmetic"],
 "enumeration of all labelled programs in a bounded space against a two-pass reference resolver",
 TRUST)
prop("C06", "Definition records keep every flag combination and list",
 "Every kind of definition record keeps all of its flag bits, including those without a known meaning, and all fields and lists: class flags and members, function flags, parameters, locals, operators, casts, source positions and bodies, enum values, field defaults and properties, parameter flags, source paths, types. The bytes follow the record layout of the format for every combination of the optional parts.",
 ["inputs", "configurations"], "every 16-bit flag word of classes and fields, every shape of functions, all list lengths at boundary values, all type kinds and sizes",
 "the shipped bundle contains only some combinations, and tests compare almost none of them",
 ["core/src/definition.rs"],
 [("record encode/decode per kind", "core/src/definition.rs"), ("flag bit fields", "core/src/definition.rs")],
 ["definitions seen after load, bytes after save"],
 "exhaustive enumeration of flag words and optional-part combinations against reference record layouts",
 TRUST)
prop("C07", "Pool operations behave like a map from index to entry",
 "In any history of loading a pool and then adding strings, adding, replacing, renaming, swapping and stubbing definitions, an index keeps naming the entry it was given for, adding a string that is present gives an index that holds it and adding a new one gives a fresh index, and lookups, listings and root queries show exactly the entries present. Changing one entry never changes another; the first name always reads as None.",
 ["histories"], "all operation sequences up to the bounded depth from an empty and from a loaded pool, and large tables",
 "the tests never mutate a pool in more than one step",
 ["core/src/bundle.rs"],
 [("ConstantPool, Names, Resource pools", "core/src/bundle.rs")],
 ["ConstantPool public operations"],
 "explicit exploration of all operation histories up to a depth against a map model, compared after every step",
 TRUST)
prop("C08", "Remapping changes exactly the references it is meant to",
 "Remapping classes in a pool replaces exactly the base of each class, the owner of each method and field, and the class of each object construction, creation and cast in code; remapping functions replaces exactly the owner of each parameter and local and the target of each static call. Each reference is looked up once, references that are not in the mapping stay, and everything else, the order of entries and the size of code included, is left as it was.",
 ["inputs", "programs", "configurations"], "all mappings of small index sets, all subsets of mappers, all definition kinds, every operand of every instruction, large indices and long bodies",
 "remapping has no test",
 ["core/src/mapper.rs", "core/src/bytecode.rs", "core/src/definition.rs"],
 [("PoolMapper, MultiMapper, Instr::map", "core/src/mapper.rs")],
 ["pool contents after a mapping"],
 "enumeration of mappings x definitions x instructions against a reference substitution",
 TRUST)
prop("C09", "Damaged bundles are refused without a crash",
 "Loading a truncated or altered bundle ends in an error or in a pool, never in a panic, an endless loop or a memory request out of proportion to the file. A file with a wrong magic is refused, and whatever was accepted can be saved and loaded again.",
 ["inputs", "fault_sequences"], "truncation at every length, every byte of small bundles to every value, every word to boundary values, pairs of damaged places",
 "no test loads a damaged file",
 ["core/src/bundle.rs", "core/src/decode.rs", "core/src/definition.rs", "core/src/bytecode.rs"],
 [("bounds and tag validation in decoders", "core/src/decode.rs")],
 ["ScriptBundle::load on damaged input"],
 "exhaustive fault injection into files: every truncation, every byte value, boundary words, pairs",
 TRUST + "Allocation is watched by a counting global allocator.")
prop("C10", "I/O errors are reported and short transfers change nothing",
 "When reading or writing a bundle the underlying stream may deliver or take fewer bytes than asked, or be interrupted, and the result is the same as with full transfers. An error of the stream at any call is returned to the caller, and a save never reports success when bytes were lost.",
 ["fault_sequences", "crash_points"], "a short, interrupted or failing transfer at every single call of a load and a save, and at every call at once, for every bounded bundle",
 "tests use in-memory streams that never fail",
 ["core/src/io.rs", "core/src/encode.rs", "core/src/decode.rs", "core/src/bundle.rs"],
 [("Seek/Read/Write wrappers", "core/src/io.rs"), ("load and save", "core/src/bundle.rs")],
 ["results of ScriptBundle::load and save on faulty streams"],
 "enumeration of all single faults (and all-calls faults) of every kind at every stream call, on the real code",
 TRUST)
prop("C12", "Decompiled source takes the same path as the bytecode",
 "Decompiling the code of a function gives statements with the same behaviour: under every sequence of condition and switch values the statements run the same calls in the same order, leave by the same return, and go round the same loops as the code. No goto is left in the result and no statement is lost, repeated or moved to another block.",
 ["programs", "histories"], "all bodies of nested if, if/else, while, switch, break and return up to the bounded number of statements and depth, each run under all sequences of condition answers up to a bound",
 "no test decompiles anything; a body of nested blocks has many shapes whose jump layout coincides",
 ["decompiler/src/lib.rs", "core/src/bytecode.rs"],
 [("consume_path, conditional and switch reconstruction", "decompiler/src/lib.rs")],
 ["Decompiler::decompile_function"],
 "enumeration of all structured bodies in a bound, compiled by the harness; a lock-step product of a bytecode machine and a statement machine explored over all answer sequences",
 TRUST + "Bodies are laid out the way the redscript and vanilla compilers lay out code; DESIGN.md states the class. Two findings are listed.")
prop("C13", "Decompiled expressions mean what the instructions mean",
 "Each instruction of a body appears in the decompiled source as the expression or statement it stands for, with its operands in the right order and at the right place: constants with their value and type, names, members, elements, calls with their receiver and arguments, operators, conversions, constructions and assignments. Locals and parameters are declared and named as in the function, and what follows an expression is not swallowed by it.",
 ["programs"], "all instruction trees up to a bounded depth over all instruction forms in all operand positions, all pairs of statements, all constants at boundary values, all call argument counts, all operators by name",
 "no test decompiles anything",
 ["decompiler/src/lib.rs", "decompiler/src/print.rs", "core/src/ast.rs"],
 [("consume and per-instruction translation", "decompiler/src/lib.rs"), ("write_expr", "decompiler/src/print.rs")],
 ["text written by print::write_definition"],
 "enumeration of instruction trees; the printed text is read back by an independent parser and compared with the tree the instructions stand for",
 TRUST + "The harness parser follows the grammar of compiler/src/parser.rs.")
prop("C14", "Printed source reads back as the same program",
 "The text written for a decompiled function follows the language's grammar and reads back as exactly the statements and expressions that were decompiled. Parentheses appear wherever precedence or associativity needs them, strings, names and numbers are escaped and written so that their value is kept, and each statement ends up in its own block.",
 ["programs", "inputs"], "all statement bodies of the bounded flow grammar, all expression trees over all operators up to a bounded depth, all short strings over special characters, numbers at boundary values",
 "no test prints source",
 ["decompiler/src/print.rs", "core/src/ast.rs", "core/src/str_fmt.rs"],
 [("write_seq, write_expr, operators and precedence", "decompiler/src/print.rs"), ("operator tables", "core/src/ast.rs")],
 ["text written by print::write_definition"],
 "enumeration of programs; printed text parsed by an independent grammar and compared with the decompiled tree",
 TRUST)
prop("C15", "Printed declarations state the definition exactly",
 "The declaration printed for a class, function, field or enum names exactly its modifiers, name, base, parameters with their out and optional marks, return type, members, runtime properties and enum values. It follows the language's grammar, lists nothing that is not part of the definition and leaves out nothing the language can express.",
 ["inputs", "configurations"], "every flag combination of classes, functions, fields, parameters, every type up to a nesting bound, every list length and escape in properties, enum values at boundaries, listings of mixed pools, both output modes",
 "no test prints declarations",
 ["decompiler/src/print.rs", "decompiler/src/files.rs"],
 [("write_definition, write_type, write_function", "decompiler/src/print.rs")],
 ["text written by print::write_definition"],
 "exhaustive enumeration of flag words, types and lists; printed text parsed by an independent declaration grammar and compared with the model of the definition",
 TRUST)
prop("C16", "The file index puts every definition in its one place",
 "Grouping a pool by source file lists every class, enum and global function under each file that its source positions or those of its methods name, and under the orphans when they name none. No definition is listed twice under a file and no member on its own, definitions of one file appear in the order of their lines, and a source file is listed once, whatever order the definitions have in the pool.",
 ["inputs", "configurations"], "all placements of up to a bounded number of definitions of every kind over files and lines, sources that name no file, missing sources, pools with many definitions",
 "no test builds a file index",
 ["decompiler/src/files.rs"],
 [("FileIndex::from_pool, FileIndex::iter", "decompiler/src/files.rs")],
 ["FileIndex::iter"],
 "enumeration of all assignments of definitions to files and lines against a grouping model",
 TRUST)
prop("C17", "Code that no compiler wrote never crashes the decompiler",
 "Decompiling or dumping a definition ends in text or in an error, never in a panic, an endless loop or runaway memory, whatever instructions, jump offsets and references the bundle holds. References to missing entries and to entries of the wrong kind, cyclic types, jumps backwards or out of the body, and call arguments that are missing or too many are all such input.",
 ["inputs", "programs"], "all definitions with references of every kind, all instruction sequences of bounded length over all operand classes, all jump targets in short bodies",
 "no test decompiles hand-made code",
 ["decompiler/src/lib.rs", "decompiler/src/print.rs", "decompiler/src/files.rs", "core/src/bytecode.rs"],
 [("Decompiler", "decompiler/src/lib.rs"), ("write_definition", "decompiler/src/print.rs")],
 ["print::write_definition in every output mode", "FileIndex"],
 "exhaustive enumeration of short instruction sequences and wrong references on the real decompiler under a watchdog and an allocation limit",
 TRUST + "Bodies up to five instructions of the control-flow alphabet; very deep nesting and adversarial jump nests that cost exponential time are outside the bound.")
prop("C11", "Types, operators and positions are named the same way everywhere",
 "A type's stored form, its form in source and its form in function names each tell types apart exactly as they should: reading the stored form gives the same type back at any nesting, the source form lists all arguments, and the function form leaves out references at every level and nothing else. Operators and intrinsics are found by exactly their own names and rank as in the grammar, and spans cover, contain and compare as intervals of positions.",
 ["inputs"], "all type trees up to a bounded depth and width over short and long names, all pairs of small types, all short stored names, all operators and names near them, all pairs of spans over a set of positions",
 "no test touches type names, operators by name or spans",
 ["core/src/ast.rs", "core/src/bytecode.rs"],
 [("TypeName repr, from_repr, mangled, pretty", "core/src/ast.rs"), ("BinOp, UnOp, IntrinsicOp", "core/src/ast.rs"), ("Span, Pos", "core/src/ast.rs")],
 ["TypeName, BinOp, UnOp, IntrinsicOp, Span, Expr::span"],
 "exhaustive enumeration of type trees, pairs, names and intervals against a reference model",
 TRUST)
prop("C18", "The command line means the same in any order of its options",
 "After `-compile DIR`, every option is read as written whatever the order and number of the options: paths, thread count, warnings and switches end up in exactly the setting they name. Settings that are not named keep their documented defaults, and a command line that names no script directory, leaves an option incomplete, or holds an unknown or malformed one is refused.",
 ["inputs", "configurations"], "all sets and orders of up to a bounded number of options over path, number and word values, all single malformed or unknown arguments at every place",
 "the tests try a list of known orders of fixed values",
 ["scc/cli/src/opts.rs"],
 [("Opts::parse", "scc/cli/src/opts.rs"), ("no_space, toggle_options, equals_sign, slong", "scc/cli/src/opts.rs")],
 ["Opts::parser().run_inner"],
 "enumeration of all option sets, orders and defects up to a bound against a model of the documented options",
 TRUST, crate='opt')
prop("C19", "Arguments broken up by quoted paths are put back together",
 "When the command line reaches the program with its grouping broken by paths that end in a backslash before a closing quote, the arguments after repair are those that were meant, for any number of such paths at any place and with spaces in them. Arguments that were grouped correctly stay as they are, and no argument list, whatever quotes it holds, makes the repair fail or yields an empty argument.",
 ["inputs"], "all command lines of up to a bounded number of arguments over plain words, paths with spaces and paths ending in a backslash, broken up by the Windows rules; all argument lists over a small alphabet of quotes, spaces, backslashes and letters",
 "the tests try fixed sets of paths",
 ["scc/cli/src/opts.rs"],
 [("fix_args", "scc/cli/src/opts.rs")],
 ["fix_args, Opts::get_parser"],
 "enumeration of command lines through a model of the Windows splitting rules into the real repair",
 TRUST + "Doubled spaces, spaces at the ends of paths and doubled trailing backslashes are lost before the program starts and are outside the claim.", crate='opt')
COMP = ("The compiler is built from /repo with stand-ins for the three dependencies that are not available offline (the parser generator, the persistent map and the trie of imports, all in standin/); "
        "the repository's own 50 compiler tests pass with them. The machine that runs compiled code and the reference interpreter of the source language are ours. ")
prop("C20", "Compiled control flow and scopes do what the source says",
 "A compiled function performs the calls, assignments and returns its source says, in that order, for every outcome of its conditions: branches, loops, breaks, switches with empty, falling and missing cases, and early returns at any nesting. Every name refers to the innermost declaration that is visible, keeps its value for as long as that is in scope, and starts each time with the value or the default its declaration gives it.",
 ["programs", "inputs"], "all function bodies of up to a bounded number of statements and nesting, and all outcomes of a bounded number of conditions",
 "the tests compare the instructions of a few fixed snippets",
 ["compiler/src/assembler.rs", "compiler/src/typechecker.rs", "compiler/src/sugar.rs", "compiler/src/scope.rs", "compiler/src/transform.rs"],
 [("Assembler::assemble", "compiler/src/assembler.rs"), ("TypeChecker::check", "compiler/src/typechecker.rs"), ("Desugar", "compiler/src/sugar.rs")],
 ["CompilationUnit::compile, then the code in the pool"],
 "enumeration of all programs up to a bound; the compiled code is executed on a machine and compared step by step with a reference interpreter of the source, on every sequence of condition outcomes",
 COMP + "Falling from one case with statements into the next is refused by the compiler and is outside the claim.", crate='comp')
prop("C21", "Compiled expressions evaluate to what the source says",
 "Every expression of a compiled function evaluates its parts in the order in which they are written, each exactly once, skips what a conditional or a short-circuit operator skips, and yields the value its operators, calls, assignments, literals and implicit conversions say. The same holds for interpolated strings and array literals wherever an expression may stand, including the conditions of loops and the cases of switches.",
 ["programs", "inputs"], "all expressions up to a bounded depth over operators, calls, out parameters, indexing and compound assignment in every kind of statement; literals and conversions of every type at every place that expects one",
 "the tests compare the instructions of a few fixed snippets",
 ["compiler/src/assembler.rs", "compiler/src/typechecker.rs", "compiler/src/sugar.rs"],
 [("Assembler::assemble, emit_conversion", "compiler/src/assembler.rs"), ("check, insert_conversion", "compiler/src/typechecker.rs"), ("on_array_lit, on_interpolated_string, on_while", "compiler/src/sugar.rs")],
 ["CompilationUnit::compile, then the code in the pool"],
 "enumeration of all expression trees up to a bound; the compiled code is executed on a machine and compared with a reference interpreter of the source",
 COMP + "Array literals are filled before the statement they stand in: where that order shows is a known finding.", crate='comp')
prop("C22", "Compiled objects, calls, structures and arrays behave as written",
 "A method call reaches the definition that the class of the object selects, a final, static or super call the one the source names, and the arguments arrive in their parameters, with changes to out parameters reaching the caller. Objects and arrays changed through any reference or name, structures copied on assignment, array operations at any index, and locals without a value behave as the language says, and the code that is emitted has the shape and types its instructions need.",
 ["programs", "inputs"], "all sequences of up to a bounded number of operations on arrays and structures; three classes with every choice of overriding, receiver type, qualifier and argument",
 "the tests compare the instructions of a few fixed snippets",
 ["compiler/src/assembler.rs", "compiler/src/typechecker.rs", "compiler/src/unit.rs", "compiler/src/scope.rs"],
 [("Assembler::assemble, emit_initializer", "compiler/src/assembler.rs"), ("check_intrinsic, check_function, check_method", "compiler/src/typechecker.rs"), ("CompilationUnit::define_class", "compiler/src/unit.rs")],
 ["CompilationUnit::compile, then the code in the pool"],
 "enumeration of all operation sequences and class shapes up to a bound; the compiled code is checked for shape, executed on a machine and compared with a reference interpreter of the source",
 COMP + "Calls on a null receiver yield the default value, as the machine of the game does.", crate='comp')
prop("C23", "Annotated functions wrap, replace and add exactly what they name",
 "After any history of compilations with annotated functions, a call to an annotated function runs the wrappers in order, the last one outermost, around the last replacement, and each wrapped call runs the function as it was before that wrapper. Added methods and fields belong to the class they name, the functions not named, overloads included, keep their behaviour, and every definition in the pool stays consistent, in memory and after it is saved and loaded.",
 ["histories", "programs"], "all sequences of annotations of a bounded length over methods, overloads, static and native functions, out parameters, globals and inherited methods, in one file, several files and several compilations",
 "the tests compile one wrapper of one method",
 ["compiler/src/unit.rs", "compiler/src/assembler.rs", "compiler/src/transform.rs", "core/src/mapper.rs"],
 [("CompilationUnit::compile, annotations, wrappers and proxies", "compiler/src/unit.rs"), ("PoolMapper", "core/src/mapper.rs")],
 ["CompilationUnit::compile, then the pool and the code in it"],
 "enumeration of all histories of annotations up to a bound; pool checked for consistency and executed on a machine against a model that chains the functions",
 COMP + "Within one compilation a replacement is applied before the wrappers, wherever it stands.", crate='comp')
prop("C24", "A compiled script leaves in the bundle exactly what it declares",
 "After a compilation the bundle holds each class, structure, enum, field and function with exactly the visibility, flags, base class, parameters, types, default values, member values, runtime properties and position in its source that its declaration gives it, wherever the declaration stands, and nothing of what was there before changes. Base classes come out before the classes that extend them for any shape and order of the hierarchy, and code elsewhere finds every one of these definitions by the name and signature it was declared with.",
 ["programs"], "all combinations of qualifiers on every kind of declaration, all signatures of up to a bounded number of parameters, all values of fields and enums, all hierarchies of a bounded number of classes in every order of declaration, in one compilation or two",
 "the tests compile single classes and compare a few instructions",
 ["compiler/src/unit.rs", "compiler/src/symbol.rs", "core/src/definition.rs", "core/src/bundle.rs"],
 [("define_class, define_function, define_field, define_symbol", "compiler/src/unit.rs"), ("FunctionSignature", "compiler/src/symbol.rs")],
 ["CompilationUnit::compile, then the definitions in the pool"],
 "enumeration of all declarations up to a bound; the definitions in the pool are compared with a model of the declarations, and small hierarchies are run on a machine",
 COMP, crate='comp')
prop("C25", "Names mean what modules, imports, visibility and conditions let them mean",
 "In a module, a function or class named without or with its path is the one the rules of modules select: its own and imported names, by item, by list or as a whole module, take their place in the order of imports, and what is private elsewhere, not imported or not there is refused. Two types of the same name in different modules stay apart in every use, and a declaration under conditions of existing modules, at any nesting of the operators, is compiled exactly when the conditions hold.",
 ["programs"], "all programs of one or two imports over a fixed set of modules that define and hide the same names, all uses of the types of two modules, all condition trees up to a bounded depth",
 "the tests compile a handful of imports and conditions",
 ["compiler/src/unit.rs", "compiler/src/symbol.rs", "compiler/src/scope.rs", "compiler/src/cte.rs"],
 [("SymbolMap", "compiler/src/symbol.rs"), ("Scope::resolve_type", "compiler/src/scope.rs"), ("cte::Context::eval", "compiler/src/cte.rs")],
 ["CompilationUnit::compile, then the code in the pool or the refusal"],
 "enumeration of all programs up to a bound against a model of name lookup and conditions; accepted ones are run on a machine, all others have to be refused",
 COMP, crate='comp')
prop("C26", "Values stand only where their types fit, and calls choose by them",
 "A value is accepted in a place of a type exactly if it fits there (the same type, null for a reference, a subclass for its base, strong and weak references, a reference to any script value, a variant, a literal for a wider number) and arrives as the value it was. A call runs the first overload in order, own class before base classes, whose number and types of arguments fit, conversions by name and operators included, and where nothing fits, or an expression or a declaration is ill-formed, the program is refused.",
 ["programs"], "every value of a set over every kind of type in every place of every type, alone, in conditionals and in arrays; all sets of two and three overloads over a set of types and every argument; all operators and conversions on all pairs of types; a list of ill-formed expressions in every place",
 "the tests try a few fixed programs",
 ["compiler/src/typechecker.rs", "compiler/src/scope.rs", "compiler/src/error.rs"],
 [("find_conversion, insert_conversion, lub", "compiler/src/typechecker.rs"), ("resolve_overload, validate_call", "compiler/src/typechecker.rs")],
 ["CompilationUnit::compile, then the code in the pool or the refusal"],
 "enumeration of all pairs of values and places and all sets of overloads up to a bound against a model of the type rules; accepted programs are run on a machine, all others have to be refused",
 COMP + "That `as` is accepted on values that are no references, and that the labels of a switch are not checked against its subject, is outside the claim.", crate='comp')
SCC = ("scc-lib is built from /repo with stand-ins for flexi_logger, fd-lock (flock), normpath (used on Windows only) and the newer toml, and for the compiler's three missing dependencies. "
       "File system calls are intercepted inside the process, where a call can be cut short, fail or end the run; times of files are logical. ")
prop("C27", "Every compilation of a game starts from the game's own bundle",
 "Whatever compilations came before, successful or not, with other scripts, with and without a separate output, and whatever updates and restorations of the game, deployments to a custom path or deletions of our own files came between, a compilation that succeeds leaves a bundle that consists of the game's newest bundle and the scripts as they are now, never of an older bundle or of scripts that are gone. The game's newest bundle always stays available, a failed compilation leaves the bundle without scripts, and no history makes correct scripts fail to compile.",
 ["histories"], "all histories of any length over compilations with every kind of script, updates, restorations and deletions at one path (until no new state of the folder turns up), and up to 8 (thorough: any number of) steps at two paths with separate outputs",
 "the tests of scc need a built shared library that is not there, and compile a folder once",
 ["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs", "scc/lib/src/api.rs"],
 [("compile, try_compile, backup and timestamp handling", "scc/lib/src/lib.rs"), ("CompileTimestamp", "scc/lib/src/timestamp.rs")],
 ["scc_compile, then the files in the game folder"],
 "explicit-state search over states of the game folder, with the real compilation as the transition, to a fixpoint, against a model that knows the game's newest bundle",
 SCC + "Times of files only grow, as the clock does.", crate='scc')
prop("C28", "An interrupted compilation destroys nothing and the next one recovers",
 "If a compilation ends at any file system operation, in the middle of a write, or because the disk is full, the game's own bundle is not lost, the bundle that the game would load is one that was there before or a complete new one, and no half-written file of ours is taken for a good one later. The next compilation that is not interrupted gives what it would have given without the interruption.",
 ["crash_points", "histories"], "an end of the process before, and in the middle of, every file system call of every compilation, and a failing one at every write, in every state of the folder that histories of compilations, updates, restorations and deletions reach, once and several times",
 "the tests never interrupt a compilation",
 ["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs", "core/src/bundle.rs"],
 [("order of writes, renames and timestamps", "scc/lib/src/lib.rs"), ("CompileTimestamp::write", "scc/lib/src/timestamp.rs")],
 ["scc_compile under faults, then the files in the game folder"],
 "explicit-state search over states of the game folder, with every fault position of the real compilation as a transition, to a fixpoint or a stated number of steps",
 SCC + "What was written before a crash is on the disk afterwards (no reordering by the file system).", crate='scc')
prop("C29", "Reports name the mods at fault, hints that fit and places in the sources",
 "The report of a failed compilation names exactly the mods with errors and gives exactly the user hints whose code, file and text fit an error, each id once, and the usual advice if none does. A successful one gives a reference with kind, name, owner, file and line for each definition of the scripts and for nothing else. Positions in a list of files resolve to the right file, line, column and text, every file with the extension of a script is compiled and nothing else, and copied messages stay within their buffer.",
 ["inputs", "configurations"], "all sets of up to four scripts with and without errors over six places, every hint and pair of hints over small sets of conditions, every size of buffer, all pairs of declarations over files and modules, all positions in lists of short files, all sets of file names",
 "the tests of scc need a built shared library that is not there",
 ["scc/lib/src/lib.rs", "scc/lib/src/hints.rs", "scc/lib/src/api.rs", "compiler/src/source_map.rs", "compiler/src/unit.rs"],
 [("ErrorReport, mod names", "scc/lib/src/lib.rs"), ("UserHints", "scc/lib/src/hints.rs"), ("scc_* functions", "scc/lib/src/api.rs"), ("Files, File::lookup", "compiler/src/source_map.rs"), ("SourceRef", "compiler/src/unit.rs")],
 ["scc_compile, scc_copy_error, scc_output_* and scc_source_ref_*", "Files::lookup"],
 "enumeration of all bounded script folders, hint files and buffers against a model of the report and of the references",
 SCC + "Syntax errors are reported for the first file that has one.", crate='scc')
prop("C30", "Two compilations of one installation at once are like one after the other",
 "Of two compilations of one installation that run at the same time, each with any choice of cache and output, in any interleaving of their file system calls, both end, and what they report and leave behind is what they would have reported and left behind one after the other, in one of the two orders. Neither of them sees, copies or loads a file that the other one is in the middle of changing.",
 ["schedules"], "all schedules of two real compilations with up to two switches that no wait forces, at every file system call and lock, over nine states of an installation and all choices of cache and output",
 "the tests of scc compile a folder once, on one thread",
 ["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs"],
 [("locks on the timestamp files in try_compile", "scc/lib/src/lib.rs"), ("CompileTimestamp", "scc/lib/src/timestamp.rs")],
 ["scc_lib::compile on two threads under a controlled scheduler, then the results and the files in the game folder"],
 "stateless exploration of all schedules of the real code up to a bound on preemptions, with a scheduler that decides at every file system call, against the outcomes of the two serial orders",
 SCC + "The lock is the real flock, made visible to the scheduler.", crate='scc')
prop("C31", "Warnings and lint errors name exactly the code that deserves them",
 "A function that has to return a value is reported for a missing return exactly if some path through its branches, loops and switches reaches its end; a local exactly if nothing refers to it; a case before the last exactly if it has statements that end in neither a break nor a return; a use of a struct's field, an element or an array operation exactly if it works on a temporary. Each report names the line, column and extent of the code at fault, errors keep the scripts from being compiled and warnings do not, and reports of one definition depend on no other definition.",
 ["programs", "inputs"], "all function bodies of a bounded size over returns, branches, loops, switches and breaks; all declarations and places of uses of locals; all kinds of operands at every place that needs a variable; all sequences of short definitions with and without each fault; all layouts of short sources",
 "the tests have one or two programs per diagnostic",
 ["compiler/src/diagnostics/missing_return.rs", "compiler/src/diagnostics/unused_local.rs", "compiler/src/diagnostics/stmt_fallthrough.rs", "compiler/src/diagnostics/invalid_temp_use.rs", "compiler/src/diagnostics.rs", "compiler/src/unit.rs"],
 [("MissingReturnPass", "compiler/src/diagnostics/missing_return.rs"), ("UnusedLocalsPass", "compiler/src/diagnostics/unused_local.rs"), ("is_fatal, display", "compiler/src/diagnostics.rs")],
 ["CompilationUnit::compile_files and compile_and_report: the diagnostics and the log"],
 "enumeration of all function bodies and uses up to a bound against a model that walks every path of the body, each program through the real compiler with its default passes",
 COMP + "The conditions of branches and loops count as free; a switch without a default counts as one whose cases are all there are.", crate='comp')
prop("C32", "Source text is read by the grammar, with every construct in its place",
 "A text is accepted exactly if it is one of the language, and is then read as what it says: operators by their precedence and direction, statements, declarations, annotations, imports and literals with their exact values, escapes and interpolated expressions included. Blanks and (nested) comments between words change nothing. Each construct knows the place in its file where it is written, and an error is reported at a place inside the text.",
 ["inputs"], "all sequences of words up to a length in the place of an expression, all chains of operators up to a length, sentences of every rule of the grammar with every one or two words removed, exchanged or inserted, every blank or comment at every one or two places, all short numbers, strings, escapes, interpolations and comments over their special characters, all positions in all short files",
 "the tests parse about a dozen texts",
 ["compiler/src/parser.rs", "compiler/src/source_map.rs"],
 [("the grammar", "compiler/src/parser.rs"), ("Files, File::lookup", "compiler/src/source_map.rs")],
 ["parser::parse_file: the tree, its spans, or the error", "Files::lookup"],
 "enumeration of all short texts over words and letters, and of all small changes of sentences of each rule, against an own recursive reader",
 COMP + "The parser generator being a stand-in, the check decides the grammar, not the generator. Paths of modules, type arguments and annotation names are taken as single words; unsigned fractions and paths without a name are outside the claim.", crate='comp')
P.sort(key=lambda p: p[0]['id'])
