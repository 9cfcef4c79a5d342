"""Writes known_findings.jsonl (maintained here by hand, never at run time)."""
import json
import os

FIXED = [
    ("C15", "c6c50d9", "order of generated code and warnings depended on the addresses of AST nodes"),
    ("C14", "e3cc957", "discriminated context identifiers could collide with other identifiers"),
    ("C23", "f620573", "crash on operator<< with an unnamed record as parameter"),
    ("C09", "29a9776", "keep_alive indices of static member functions were shifted by one"),
    ("C09", "ee3d0b0", "noconvert/required of parameters following pybind11::args were lost"),
    ("C05", "f67f1bf", "operators without Python equivalent were exposed under an empty name"),
    ("C18", "a82becf", "-std=c17 and similar were turned into an invalid C++ standard"),
    ("C13", "2ebdfce", "moved-from literal values were left in an invalid state"),
    ("C18", "167ce1f", "--std=<standard> was ignored when enforcing C++17"),
    ("C08", "1fc0d25", "unnamed types were exposed with names that do not compile"),
    ("C06", "6d8b807", "default arguments of property accessors made them unusable"),
    ("C13", "b590ebc", "setting a literal value from its own content read freed memory"),
    ("C10", "fc7449d", "unscoped enums that inherit visibility did not export their values"),
    ("C08", "708613f", "bases of inlined bases were registered after the derived class"),
    ("C08", "10dfff4", "a global type named root broke the module definition"),
    ("C01", "a9cae15", "namespaces with only function template instantiations were pruned"),
    ("C04", "a8fa9b2", "braced default arguments were printed with the type twice"),
    ("C04", "f80f79f", "default arguments lost their implicit conversions"),
    ("C04", "bd3c7f0", "types in sizeof/alignof in default arguments were not qualified"),
    ("C04", "de7a2ba", "braced default arguments of references to const did not compile"),
    ("C03", "8cc3a15", "functions overloaded with function templates did not compile"),
    ("C07", "6d0548f", "conversion to bases at a non-zero offset corrupted memory"),
    ("C07", "ad806a1", "bases reached via several inlined bases were listed twice"),
    ("C02", "57f9ce0", "types with a typedef name for linkage were exposed under an empty name"),
    ("C08", "5a95674", "members of such types did not compile"),
    ("C10", "04c6991", "documentation of an enumerator was attached to the following ones"),
    ("C23", "f62e5f0", "assertion failure for an annotated alias of an undefined template's specialization"),
    ("C18", "4ac059a", "-ansi and --language were ignored when enforcing C++17"),
    ("C16", "0bb0ac8", "giving one output path twice lost part of the code with exit status 0"),
    ("C02", "66b2320", "members of inline namespaces were exposed twice, those of nominated namespaces in other scopes"),
    ("C23", "187804d", "two diagnostics in flight for a wrong annotation on an alias of an unsupported type"),
    ("C23", "0b0965c", "assertion failure for annotations on several declarations of one specialization"),
    ("C23", "d5e9116", "endless loop if two annotated aliases name a specialization that cannot be instantiated"),
    ("C23", "31ce567", "assertion failure for operators with an invalid signature"),
    ("C04", "52a3c98", "types and constants in explicit template arguments of default arguments were not qualified"),
    ("C04", "492b509", "user-defined literals in default arguments did not compile outside of their scope"),
    ("C08", "5fd7528", "entities in anonymous namespaces did not compile"),
    ("C08", "8b213c5", "classes that inherit constructors did not compile (copy constructor of the base was exposed)"),
    ("C01", "1fad0b2", "non-public constructors of bases were exposed as inherited constructors"),
    ("C19", "d35748a", "_Pragma(\"genpybind include ...\") was not recorded (assertion failure)"),
    ("C04", "9bb1c10", "casts to references in default arguments lost the reference (sliced objects, uncompilable const_cast)"),
    ("C04", "789fe76", "default arguments calling virtual member functions suppressed the virtual dispatch"),
]

# Defects that are recorded, not repaired.  The id names the case in the check
# that reproduces it (vf/checks/cNN.py, KNOWN); "match" has to be found in the
# observed problem, anything else is reported as a violation.
KNOWN = []


def known(id, prop, what, match):
    KNOWN.append({"id": id, "property": prop, "status": "known", "what": what, "match": match})


known("C21-extern-enum", "C21", "scoped enums nested in an extern template instantiation whose template is visible only by the "
      "default visibility of its scope are not instantiated and hence not exposed (namespace n GENPYBIND(visible) { template "
      "<typename T> struct U { enum class Es { a = sizeof(T) }; }; extern template struct U<int>; })", "Es")

known("C21-forward-specialization", "C21", "annotations on a forward declaration of an explicit class template specialization "
      "are ignored (template <> struct GENPYBIND(visible) A<int>; template <> struct A<int> { ... };)", "A_int_")
known("C08-pack-arguments", "C08", "types in a template parameter pack of an explicit instantiation are printed as written, which does not "
      "compile if they are not qualified there (namespace n { struct U {}; template <typename... T> struct GENPYBIND(visible) P "
      "{}; template struct P<U>; })", "identifier 'U'")
known("C08-extern-cxx-nested", "C08", "types nested in a class declared in an extern \"C++\" block within a namespace are not "
      "qualified (namespace n { extern \"C++\" { struct GENPYBIND(visible) O { struct GENPYBIND(visible) I {}; }; } })", "identifier 'O'")
known("C08-protected-using", "C08", "protected members made public by a using-declaration are referred to via the base class, which does "
      "not compile (struct GENPYBIND(visible) D : B { using B::p; } for a protected B::p)", "protected member")

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
    for i, (p, c, w) in enumerate(FIXED):
        f.write(json.dumps({"id": "F%02d" % (i + 1), "property": p, "status": "fixed", "commit": c, "what": w,
                            "record": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
    for k in KNOWN:
        f.write(json.dumps(k) + "\n")
