"""property id -> (technique, level note[, level])"""
E2E = ("runtime monitoring: the tool (ASan, UBSan, assertions on) runs on generated headers, the bindings are compiled "
       "and imported, and a monitor compares %s with a model of the generated program")
INP = "runtime monitoring: in-process harness under ASan/UBSan compares every execution with a reference model%s"
CHECKS = {
    "C01": (E2E % "the complete reachable interface", "random programs; seeds vary the programs"),
    "C02": (E2E % "names, scopes and identity of all attributes", "random programs; seeds vary the programs"),
    "C03": (E2E % "what each call reported to have received", "random signatures, overload sets and arguments"),
    "C04": (E2E % "what calls with omitted arguments received", "table of expressions, random signatures and scopes"),
    "C05": (E2E % "every operator expression and the set of special methods", "all operators in all forms, random combinations"),
    "C06": (E2E % "the complete C++ state after every read and write", "random classes, properties and variables"),
    "C07": (E2E % "bases, members and base conversions of random hierarchies", "random hierarchies; seeds vary them"),
    "C09": (E2E % "conversions, lifetimes, identity and ownership of arguments and results", "random signatures and policies"),
    "C10": (E2E % "members, values, docstrings, exported names and operators of enums", "random enums in every position"),
    "C11": ("runtime monitoring: the tool (ASan, UBSan, assertions on) runs on headers full of right and wrong annotations, and a monitor compares the lines it reports, its exit status and outputs with a table of valid annotations", "complete annotation/declaration matrix, random mixtures"),
    "C15": ("runtime monitoring: the tool runs repeatedly under varied memory order (randomizing operator new), environment and directory; a monitor compares all outputs byte by byte", "random and stress headers, random options"),
    "C16": ("runtime monitoring with fault injection: a preloaded shim numbers the tool's file operations and makes each fail, kills the process around each, plus size limits and errors; a monitor compares directory and exit status with the allowed outcomes", "all output calls x faults of random headers"),
    "C17": ("runtime monitoring: definitions in all output files are compared with the single-file run, and split modules are compiled, linked, imported and compared with a model", "random programs, 1 to 24 outputs"),
    "C18": ("runtime monitoring: the tool runs with random compile commands; a monitor compares what the preprocessor saw (reported through exposed names) with a model of the command line, and the file system with its previous state", "random command lines"),
    "C19": (E2E % "a log written by the manual blocks and the include directives of all outputs", "random arrangements of blocks and pragmas"),
    "C20": (E2E % "the complete interfaces of several modules generated from shared headers", "random namespace trees, module names and uses"),
    "C21": (E2E % "all attributes derived from templates and all members of each instantiation", "random templates and instantiations"),
    "C22": ("runtime monitoring: real compilers run on annotated programs and on the same programs with the annotations blanked out; a monitor compares tokens, macros, diagnostics and object code", "random programs, compilers, standards and options"),
    "C23": ("runtime monitoring: the tool built with ASan, UBSan and assertions runs on exotic, mutated, broken and extreme inputs and options; reports, signals, hangs and silent failures are violations", "random inputs; seeds vary them"),
    "C24": (E2E % "signatures and docstrings of all objects", "random declarations, comment styles and texts"),
    "C25": (E2E % "both dumped declaration graphs and, for a part, the classes and enums of the module", "random trees of contexts, annotations, relocations and options"),
    "C08": (E2E % "compilation, import and the position and bases of every class (or the reported cycle)", "random dependency graphs, hostile names, programs of other checks with other compilers and options"),
    "C12": (INP % ", plus end-to-end runs of the tool", "exhaustive up to 5 tokens, random beyond"),
    "C13": (INP % " (allocation balance included)", "all short histories from prepared states, random longer ones"),
    "C14": (INP % "; end-to-end runs with colliding names", "random and enumerated names"),
}
