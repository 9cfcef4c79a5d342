import json
"""Regenerates /verif/properties.jsonl (run with python3-vt)."""
import os
P=[]
def mech(symbols,files):
    out=[]
    for s in symbols:
        last=s.split("::")[-1]
        where=next((f for f in files if os.path.exists("/repo/"+f) and last in open("/repo/"+f).read()),files[0])
        out.append(dict(name=s,where=where))
    return out
def obs(id):
    return {"C12":["results of Parser::parseAnnotations in process"],"C13":["public interface of LiteralValue in process"],"C22":["preprocessor output"],"C16":["file system and exit status after the tool ended"],"C15":["bytes of output files, stdout, stderr"]}.get(id,["exit status, stderr and generated code of genpybind-tool","the compiled module imported into Python"])
def p(id,title,statement,over,text,why,files,symbols=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=mech(symbols or [],files),observe_at=obs(id),hook_needed=None)))
p("C01","Exactly the visible, accessible declarations are exposed",
 "For every annotated header, the generated module exposes a declaration if and only if it is publicly accessible, its own explicit visibility (or, without one, the visibility inherited from its enclosing class or namespace, top level being hidden) says visible, and no enclosing class is hidden; type aliases, deleted functions and private or protected members are never exposed merely by inheriting visibility. Hidden, unannotated or inaccessible declarations are not reachable from Python under any name, and no visible named declaration is lost (unnamed types and their members are not exposed).",
 ["inputs","programs"],"every nesting of namespaces (also reopened, nested, in linkage blocks), classes, enums, functions, variables, fields and methods, with every combination of visible / hidden / visible(default) / visible(false) / other annotations and access specifiers",
 "The existing tests fix about a dozen nestings; visibility is inherited through arbitrary trees and several passes (derive, prune, look up, emit) that have to agree on each of them.",
 ["src/decl_context_graph_processing.cpp","src/visible_decls.cpp","src/expose.cpp","src/annotated_decl.cpp","include/genpybind/lookup_context_collector.h"],
 ["deriveEffectiveVisibility","declContextsWithVisibleNamedDecls","pruneGraph","collectVisibleDeclsFromDeclContext","DeclContextExposer::handleDecl"])
p("C02","Each exposed declaration appears once, under its name, in the right scope",
 "Every exposed declaration appears exactly once, under the name given by expose_as or otherwise its C++ name, as attribute of the Python object of its enclosing class or of the sub-module of its nearest enclosing namespace annotated with module (named by module(name) or expose_as if given), other namespaces being transparent. A visible alias is the same object as its target; expose_here moves the target into the scope and under the name of the alias and out of its original scope, and encourage makes the target visible in its original scope.",
 ["inputs","programs"],"every tree of namespaces and classes, every combination of expose_as, module, visible/expose_here/encourage aliases to classes, enums, nested types and template instantiations",
 "Tests check selected placements; the scope of a declaration depends on the whole chain of enclosing contexts and on aliases anywhere in the translation unit.",
 ["src/decl_context_graph_builder.cpp","src/decl_context_graph_processing.cpp","src/expose.cpp","src/annotated_decl.cpp"],
 ["findEnclosingScopes","addEdgeForExposeHereAlias","propagateAnnotations","getSpelling","emitSpelling","NamespaceExposer::emitIntroducer"])
p("C03","A Python call runs the C++ function it names, with the same arguments",
 "Calling an exposed function, method, static method, constructor or call operator from Python runs exactly the C++ overload with that scope, name, parameter types and constness on exactly the given arguments and object, and returns its result; parameters can be passed by their C++ names, *args/**kwargs parameters collect the rest, and every visible overload and explicit function template specialization stays callable.",
 ["inputs","programs"],"all overload sets over parameter types, constness, static and non-static members, constructors, inherited and using-declared members, namespaces and argument values, passed by position or by keyword",
 "Tests call a few overload sets; which pointer is bound depends on the printed, fully qualified parameter types and qualifiers of each overload.",
 ["src/expose.cpp"],["emitFunctionPointer","emitParameterTypes","emitParameters","DeclContextExposer::handleDeclImpl","RecordExposer::handleDeclImpl"])
p("C04","Omitted arguments take the value of the C++ default argument",
 "For every exposed function, method, constructor or instantiated template member, a parameter with a C++ default argument can be omitted in Python and then receives the value the C++ expression denotes in its own scope, even if another entity of the same name is in scope where the bindings live; parameters without a default argument stay mandatory, and given arguments override the default.",
 ["inputs","programs"],"all default argument expressions built from literals, constants, enumerators, casts, constructor calls, braced initializers, calls, operators and template parameters, at namespace, class and template scope",
 "Default arguments are re-printed from the AST by hand written code with many cases; tests sample about a dozen expressions.",
 ["src/expose.cpp","src/instantiate_default_arguments.cpp"],["AttemptFullQualificationPrinter","emitParameters","InstantiateDefaultArgumentsASTConsumer"])
p("C05","C++ operators map to the Python operators with the same meaning",
 "For every exposed class and every visible, non-deleted arithmetic, bitwise, shift, comparison, unary or in-place operator that is a member, friend or free function in an associated namespace taking the class, the Python expression with the same operator and operand order computes what the C++ expression computes, with the class on either side; operators without a Python counterpart, hidden, deleted or private ones add nothing, and stream insertion is exposed only if named by expose_as and then yields the streamed text.",
 ["inputs","programs"],"every operator kind x member/friend/namespace function x operand order and types x constness x operand values",
 "Tests cover each operator in one form; the mapping (special method name, reflection, operand order) is a table crossed with the kind of function and the position of the class among the operands.",
 ["src/expose.cpp","public/genpybind/binding-helpers.h"],["emitOperator","emitOperatorDefinition","pythonBinaryOperatorName","pythonUnaryOperatorName","collectOperatorDeclsViaArgumentDependentLookup","isOstreamOperator"])
p("C06","Data members and properties read and write the C++ state, respecting constness",
 "Reading an exposed field, static member or property returns the current C++ value and writing it changes exactly that C++ object; writing fails, leaving the value unchanged, if and only if it is const, marked readonly or a property without setter, and namespace-scope variables appear with their value at import. Each property calls exactly the getter and setter annotated for its name, and accessor functions are not exposed as methods.",
 ["inputs","histories"],"all classes with fields and static members of varying types, constness and readonly annotations, all pairings of (multi-name, overloaded, inherited) getters and setters, and all histories of reads and writes",
 "Tests touch each kind of member once; what matters is the combination of constness, readonly, static, names and accessor pairing over histories of reads and writes.",
 ["src/expose.cpp","src/annotated_decl.cpp"],["emitProperties","RecordExposer::handleDeclImpl","DeclContextExposer::handleDeclImpl"])
p("C07","The Python class hierarchy mirrors the exposed C++ hierarchy",
 "The Python bases of an exposed class are exactly its exposed public base classes that are neither hidden by hide_base nor inlined, in declaration order; inline_base instead makes the visible members of the (transitively) inlined bases available on the class itself as if declared there, with members of the class hiding inherited ones, and hides the base relation. Instances are accepted wherever an exposed, non-hidden base is expected, and holder_type and dynamic_attr apply to the annotated class.",
 ["programs"],"all inheritance graphs (multiple, virtual, private, template bases, several levels) x hide_base / inline_base argument lists x visibility of the bases",
 "Tests contain a handful of hierarchies; base lists are computed recursively over hidden, inlined, private and unexposed bases.",
 ["src/expose.cpp","src/visible_decls.cpp","src/annotated_decl.cpp"],["RecordExposer::emitType","RecordInliningPolicy","ExposableDeclConsumer"])
p("C08","Accepted headers yield bindings that compile and import; cycles are diagnosed",
 "If the tool accepts a header (exit status 0), the generated code compiles, with any compiler and standard the header supports, and the module can be imported: bases, enclosing scopes and alias targets are registered before they are used, independent of the order and nesting in which they are declared. If no such order exists (cyclic expose_here or base/scope dependencies) the tool reports an error instead of generating code. Names of entities, parameters and template parameters never clash with those of the generated code or Python keywords. (What pybind11 cannot bind, such as bit-fields, members of reference type or several entities under one Python name, and the validity of holder types and return value policies, which are passed through, are the user's responsibility.)",
 ["inputs","programs"],"all headers over the supported features, in particular all dependency graphs between classes by nesting, inheritance and expose_here relocation, and all declaration orders",
 "Tests import about 45 fixed modules; an ordering or naming mistake only shows for particular combinations of nesting, relocation and inheritance.",
 ["src/decl_context_graph_processing.cpp","src/expose.cpp","src/decl_context_graph_builder.cpp"],["declContextsSortedByDependencies","lexicographicalTopologicalSort","reportExposeHereCycles","TranslationUnitExposer::emitModule"])
p("C09","Call policies apply to exactly the named parameters and functions",
 "noconvert and required affect exactly the parameters they name (no implicit conversion, no None), keep_alive(bound, who) keeps exactly the object denoted by who alive as long as the one denoted by bound (this, return or a parameter, for free, member, static functions and constructors), return_value_policy selects the stated ownership of the result, and implicit_conversion lets exactly the annotated converting constructor be used implicitly. Functions and parameters without these annotations keep the default behaviour.",
 ["inputs","histories"],"all signatures (parameter count and position, args/kwargs, static, constructor), all subsets of annotated parameters, and all orders of dropping references",
 "Annotations name parameters but are translated to positions; tests only use a few positions and kinds of function.",
 ["src/annotated_decl.cpp","src/expose.cpp"],["processAnnotation","emitPolicies","emitParameters"])
p("C10","Exposed enums carry every visible enumerator with its C++ value",
 "An exposed enum has exactly its visible enumerators as members, under their names or expose_as names, with their C++ values and brief documentation; enumerators are additionally available in the enclosing scope exactly if the enum is unscoped or export_values says so, and arithmetic and comparison with integers are available exactly as requested by arithmetic. Values passed to and returned from functions keep their identity.",
 ["inputs"],"all scoped and unscoped enums with any underlying type and values (negative, duplicate, extreme), annotations on enum and enumerators, nesting in namespaces and classes, relocation by expose_here",
 "Tests use small enums with consecutive values; values, names, scopes and options combine freely.",
 ["src/expose.cpp","src/annotated_decl.cpp"],["EnumExposer"])
p("C11","Invalid annotations are rejected, valid ones accepted",
 "An annotation that is unknown, malformed, not applicable to the kind of declaration, has the wrong number or type of arguments, names an unknown parameter or an invalid identifier, or conflicts with another one makes the tool report an error at the declaration, exit with failure and leave no output; a header whose annotations are all valid is accepted without errors. Every erroneous declaration is reported, and warnings never cause failure.",
 ["inputs"],"every annotation kind x kind of declaration x argument count and types, repeated and combined annotations, anywhere in a header",
 "Tests contain a few examples per annotation; applicability and argument rules form a table of annotation x declaration kind x argument list.",
 ["src/annotated_decl.cpp","src/annotations/parser.cpp","src/diagnostics.cpp","include/genpybind/lookup_context_collector.h"],["processAnnotation","ArgumentsDispatcher","AnnotationStorage::insert","errorIfAnnotationsDoNotMatchFirstDecl"])
p("C12","Annotation text is parsed according to its grammar, for every byte string",
 "For every byte string given as annotation text, parsing either yields exactly the annotations and argument values of the documented comma separated grammar (identifiers, quoted strings, unsigned integers, true/false/default, optional parentheses), or reports one error that names the offending token; annotations preceding the error are kept. Printing parsed annotations and parsing the result again yields the same annotations (if their strings are free of quotes, backslashes and control characters), and no input causes a crash, hang or invalid memory access.",
 ["inputs"],"all byte strings, of any length",
 "Unit tests parse about a hundred strings; the tokenizer and parser have to agree with the grammar on all of them, including overlong numbers, unterminated strings, escapes and non-ASCII bytes.",
 ["src/annotations/parser.cpp","src/annotations/annotation.cpp","include/genpybind/annotations/parser.h"],["Parser::parseAnnotations","Tokenizer::tokenize","Annotation::print"])
p("C13","Annotation argument values behave like values under every operation history",
 "An argument value (nothing, string, unsigned, boolean, default) holds exactly what was last set, copied or moved into it: copies are equal and independent, a move transfers the value, assignment (also to itself) releases the old value, equality holds exactly for same kind and content, printing shows the content, and a moved-from value can still be copied, compared, printed, assigned and destroyed. No history leaks, double-frees or reads invalid memory.",
 ["histories"],"all sequences of construction, copy, move, self-assignment, set, comparison, printing and destruction over any number of values",
 "Unit tests run a few fixed sequences; ownership mistakes of a hand-written tagged union depend on the history.",
 ["src/annotations/literal_value.cpp","include/genpybind/annotations/literal_value.h"],["LiteralValue"])
p("C14","Derived identifiers are valid and never collide",
 "The module name derived from any header file name, and any Python name or C++ identifier derived from a template instantiation or qualified name, is a valid identifier in which every run of other characters (including digits at the very start) became one underscore and everything else is kept; names that are already valid are unchanged. Distinct classes, enums and namespaces get distinct identifiers in the generated code, whatever they are called.",
 ["inputs"],"all file names and all sets of qualified names, including ones that differ only in characters that are replaced or that look like already disambiguated names",
 "Tests check a dozen strings; collisions need particular pairs or triples of names.",
 ["src/string_utils.cpp","src/expose.cpp","src/annotated_decl.cpp","src/tool.cpp"],["makeValidIdentifier","isValidIdentifier","DiscriminateIdentifiers","getSpelling"])
p("C15","The output is a function of the input",
 "Running the tool again on the same header with the same options gives byte-identical generated code, diagnostics, declaration graphs and exit status, independent of memory layout (address space randomization, allocator), environment, working directory and number of runs before.",
 ["configurations","inputs"],"all headers x all memory layouts and allocator behaviours",
 "Tests compare one run to a pattern; pointer-ordered containers are used throughout and only differ between memory layouts.",
 ["src/decl_context_graph_processing.cpp","src/expose.cpp","src/visible_decls.cpp","src/inspect_graph.cpp"],["lexicographicalTopologicalSort","TranslationUnitExposer::emitModule","IsBeforeInTranslationUnit"])
p("C16","Output files are complete or untouched, and the exit status tells which",
 "An output file never holds partial code: for every point at which the tool fails or is killed it keeps its previous content (or absence), holds the complete generated code or, after an error, is removed; after compiler errors, invalid annotations or unwritable outputs the exit status is non-zero and no new output or (unless killed) temporary file remains, and exit status 0 implies that all requested outputs were written completely. Naming one output path twice is an error.",
 ["crash_points","fault_sequences"],"every error in header, annotations, options or binding generation, every failing system call on the output path, every kill point, for any number of output files",
 "Tests check the exit status for erroneous headers only; no test injects faults, kills the tool or looks at the files left behind.",
 ["src/tool.cpp"],["GenpybindASTConsumer::HandleTranslationUnit","GenpybindAction::shouldEraseOutputFiles","main"])
p("C17","Splitting over several output files changes nothing but the split",
 "For every header and number of output files, the files together contain exactly the definitions of the single-file output, each once and in the same order, every file compiles on its own, and linked together they give a module with the same behaviour; every requested file is written.",
 ["configurations","inputs"],"all headers x all numbers and orders of output files, also more files than contexts",
 "The integration tests use one or two files with fixed headers; the distribution depends on the number of contexts and files.",
 ["src/expose.cpp","src/tool.cpp"],["TranslationUnitExposer::emitModule"])
p("C18","Headers are parsed as C++17 or later with the user's compile options",
 "Whatever compile command is given, the header is analysed as C++ with the requested standard if that is C++20 or later and otherwise C++17 (keeping GNU mode), with the user's defines, undefines, include paths and forced includes in effect and the __GENPYBIND__ macro defined; options that select other outputs or dependency files (-o, -c, -S, -E, -save-temps, -emit-*, -M, -MM, -MD, -MMD, -MF, -MT, -MQ, -MP) have no effect, and the file system is not changed apart from the requested outputs.",
 ["configurations","inputs"],"all compile commands: language standards, -x in any form, defines, include paths, output, dependency and warning flags, in any order, also after --",
 "Tests check three command lines; the adjusters rewrite arbitrary command lines.",
 ["src/tool.cpp"],["getCpp17OrLaterAdjuster","getDefaultResourceDirAdjuster","main"])
p("C19","Manual bindings and include pragmas take effect once, in order",
 "Every GENPYBIND_MANUAL block of a visible context is executed exactly once on import with parent bound to the object of its scope, blocks of one scope in source order, top-level blocks before the members of all namespaces and classes are filled in and postamble blocks after all of them, in source order. Every valid #pragma genpybind include (also as _Pragma or from a macro) is applied during analysis and emitted exactly once per occurrence, in order, in every generated file; other genpybind pragmas are errors.",
 ["inputs","programs"],"all arrangements of manual blocks (top-level, postamble, in namespaces, classes, reopened or relocated scopes, template instantiations) and pragmas between other declarations",
 "Tests have one order of execution; order depends on the position relative to all other contexts.",
 ["src/expose.cpp","src/pragmas.cpp","src/annotated_decl.cpp","public/genpybind/genpybind.h"],["emitManualBindings","PragmaGenpybindHandler","TranslationUnitExposer::emitModule"])
p("C20","Each declaration is exposed by exactly the modules allowed by only_expose_in",
 "A namespace annotated with only_expose_in exposes its (transitively) nested declarations in a module exactly if the module name is among the arguments, and other namespaces are unaffected; so for headers shared by several modules every such declaration is exposed by each listed module and by no other, and types exposed by one module are usable in signatures, default arguments and aliases of another that is imported later. The module name is the one given by --module-name or else derived from the header.",
 ["programs","configurations"],"all nestings of namespaces with only_expose_in lists x all module names x sets of modules imported together",
 "Tests use two modules and one shared header; the set of affected contexts is a subtree of the whole graph.",
 ["src/decl_context_graph_processing.cpp","src/annotated_decl.cpp","src/tool.cpp","public/genpybind/binding-helpers.h"],["hideNamespacesBasedOnExposeInAnnotation","getObjectForType"])
p("C21","Exactly the requested template instantiations are exposed, fully instantiated",
 "A class template instantiation is exposed exactly if it is complete in the header (explicitly instantiated or specialized, or implicitly by use) and visible by its template's or its own annotation or the default of its scope, or is the target of an expose_here or encourage alias, which also instantiates it if necessary; a merely visible alias exposes nothing by itself. Its members, nested types and default arguments are those of that instantiation, and its name is given by expose_as, the expose_here alias or by its template arguments with other characters replaced by underscores. Templates without instantiation contribute nothing, annotated alias templates are errors, and exposing one instantiation does not affect another.",
 ["programs"],"all class and function templates (type, value and nested template arguments, members of templates, nested templates) x sets of explicit, extern, implicit and aliased instantiations x annotations",
 "Tests instantiate a few templates with one or two arguments; instantiations are forced by hand and found through aliases, recursively.",
 ["src/instantiate_annotated_templates.cpp","src/annotated_decl.cpp","src/decl_context_graph_builder.cpp","include/genpybind/lookup_context_collector.h"],["InstantiateAnnotatedTemplatesASTConsumer","getSpelling"])
p("C22","Annotations do not change the program in normal compilation",
 "Without the tool, annotation macros expand to nothing: for every annotated program, preprocessing with any compiler gives the same tokens as the program without the annotations, so it compiles with the same warnings and behaviour; the public header adds no declarations of its own and needs neither pybind11 nor Python.",
 ["programs","configurations"],"all annotated headers x compilers x language standards",
 "The tests always compile annotated code and never compare it to the unannotated program.",
 ["public/genpybind/genpybind.h"],["GENPYBIND","GENPYBIND_MANUAL"])
p("C23","The tool never crashes or corrupts memory, whatever the header",
 "For every input file, valid or not (except where clang itself fails), and every set of options, the tool terminates with exit status 0 or a reported error: no invalid memory access, undefined behaviour, assertion failure, uncaught signal or hang, also with unusual but legal C++ (incomplete or dependent types, unnamed entities, unions, lambdas, deleted functions, friend declarations, macros, recursion in templates) and with syntactically broken headers.",
 ["inputs"],"all byte sequences as header, all annotation texts and positions, all tool options",
 "Tests run about 100 well formed headers without sanitizers.",
 ["src/tool.cpp","src/expose.cpp","src/annotated_decl.cpp","src/decl_context_graph_builder.cpp","src/decl_context_graph_processing.cpp","src/visible_decls.cpp","src/instantiate_annotated_templates.cpp","src/inspect_graph.cpp","src/pragmas.cpp"])
p("C24","Documentation comments become the docstrings of the declarations they document",
 "The brief text (first paragraph or \\brief) of the documentation comment of an exposed class, enum, enumerator, function, method, constructor or operator appears verbatim (any characters, any language; white space collapsed, text without comment markup) as the docstring of the corresponding Python object and of no other, for comments on any redeclaration or, for functions, on the primary template or the template's member, and declarations without documentation have none. Parameter names and types in the signature shown to the user are those of the C++ declaration, in order.",
 ["inputs"],"all comment styles and texts (quotes, backslashes, control and non-ASCII characters, several paragraphs) on every kind of declaration",
 "Tests use plain ASCII comments on one declaration of each kind; escaping and attribution depend on the text and position.",
 ["src/expose.cpp"],["getBriefText","getDocstring","emitStringLiteral"])
p("C25","The dumped declaration graphs show the effective visibility and what is exposed",
 "--dump-graph=visibility prints every namespace, class, union, enum and class template instantiation defined in the input, below the scope in which it is exposed (relocations by expose_here included), with its qualified name, its Python name where that differs, and its effective visibility (as given by annotations, access and inheritance; only_expose_in restrictions are not applied yet); --dump-graph=pruned prints of these exactly the ones that take part in the module: each class and enum in it is exposed under that name, and none is exposed that is not in it (namespaces without visible declarations are immaterial, as are order and repetition of the blocks of one namespace). Neither option changes the generated code.",
 ["inputs"],"all nestings of namespaces, classes, enums and instantiations; all annotations, access levels, relocations and module restrictions; every choice of the two options",
 "Unit tests compare the printed graphs of a few fixed trees; what is printed is computed separately from what is exposed, and depends on the interplay of annotations, access and relocation.",
 ["src/inspect_graph.cpp","src/decl_context_graph_processing.cpp","src/decl_context_graph_builder.cpp","src/tool.cpp"],["getNodeLabel","printNodeDescription","pruneGraph","deriveEffectiveVisibility"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title'])); 
print(len(P))
