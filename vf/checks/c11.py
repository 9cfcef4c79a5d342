"""Invalid annotations are rejected, valid ones accepted."""
import re

from ..engine import Case
from ..gen import H, PRE

RULE = ("every annotation with every argument shape on every kind of declaration, in random scopes, mixed with valid declarations; the "
        "monitor compares the set of source lines for which the tool reports errors with the set of lines on which a table (written from "
        "the documentation) says that the annotations are wrong, together with exit status and absence of output; headers without "
        "wrong annotations must be accepted without an error; distinct by header text")

# kinds of declarations: name -> (text with %s for the annotation and @ for a unique name, parameters, scopes)
ANY, CLS, NSP = ("top", "ns", "cls", "tmpl", "priv", "ext", "nested", "inc"), ("cls", "tmpl", "priv", "nested"), ("top", "ns", "ext", "inc")
DECLS = {
    "namespace": ("namespace @ %s { struct @i {}; }", (), ("top", "ns", "inc")),
    "enum": ("enum %s @ { @e1, @e2 };", (), ANY),
    "enum_class": ("enum class %s @ : int { e1, e2 };", (), ANY),
    "enumerator": ("enum @ { @e1 %s, @e2 };", (), ANY),
    "enumerator2": ("enum class @ { e1, e2 %s = 5 };", (), ANY),
    "struct": ("struct %s @ { int x; };", (), ANY),
    "class": ("class %s @ : public TopBase { public: int x; };", (), ANY),
    "union": ("union %s @ { int x; float y; };", (), ANY),
    "alias": ("using @ %s = TopBase;", (), ANY),
    "typedef": ("typedef TopBase @ %s;", (), ANY),
    "typedef_enum": ("%s typedef TopEnum @;", (), ANY),
    "var": ("%s inline int @ = 5;", (), NSP),
    "const_var": ("constexpr int @ %s = 5;", (), NSP),
    "field": ("%s int @ = 5;", (), CLS),
    "static_field": ("%s inline static int @ = 5;", (), CLS),
    "function": ("%s inline int @(int a, TopBase *b = nullptr) { return a + (b != nullptr); }", ("a", "b"), NSP),
    "function2": ("inline TopBase *@(TopBase *first, int) %s;\ninline TopBase *@(TopBase *first, int) { return first; }", ("first",), NSP),
    "void_function": ("%s inline void @() {}", (), NSP),
    "method": ("%s int @(int a, TopBase *b) { return a + (b != nullptr); }", ("a", "b"), CLS),
    "getter": ("%s int @() const { return 1; }", (), CLS),
    "setter": ("%s void @(int v) { (void)v; }", ("v",), CLS),
    "getter_default": ("%s int @(int v = 1) const { return v; }", ("v",), CLS),
    "void_method": ("%s void @() {}", (), CLS),
    "static_method": ("%s static int @(int a, int b) { return a + b; }", ("a", "b"), CLS),
    "ctor0": ("struct @ { %s @() {} };", (), ANY),
    "ctor1": ("struct @ { %s explicit @(int a) { (void)a; } };", ("a",), ANY),
    "ctor2": ("struct @ { %s @(int a, int b) { (void)a; (void)b; } };", ("a", "b"), ANY),
    "dtor": ("struct @ { %s ~@() {} };", (), ANY),
    "operator": ("struct @ { %s bool operator==(const @ &other) const { return this == &other; } };", ("other",), ANY),
    "free_operator": ("struct @ {}; %s inline @ operator+(const @ &lhs, const @ &rhs) { (void)rhs; return lhs; }", ("lhs", "rhs"), NSP),
    "call": ("struct @ { %s int operator()(int a) const { return a; } };", ("a",), ANY),
    "function_template": ("template <typename T> %s T @(T a) { return a; } template int @(int);", ("a",), ("top", "ns")),
    "class_template": ("template <typename T> struct %s @ { T x; }; template struct @<int>;", (), ("top", "ns")),
    "method_template_class": ("template <typename T> struct @ { %s T f(T a) { return a; } }; template struct @<int>;", ("a",), ("top", "ns")),
}
ENUMS = {"enum", "enum_class"}
RECORDS = {"struct", "class", "union", "class_template"}
ALIASES = {"alias", "typedef", "typedef_enum"}
VARS = {"var", "const_var", "field", "static_field"}
METHODS = {"method", "getter", "setter", "getter_default", "void_method", "static_method", "call", "method_template_class"}
CTORS = {"ctor0", "ctor1", "ctor2"}
OPS = {"operator", "free_operator"}
FUNCS = {"function", "function2", "void_function", "function_template"} | METHODS | CTORS | OPS
APPLIES = {"arithmetic": ENUMS, "export_values": ENUMS, "dynamic_attr": RECORDS, "hide_base": RECORDS, "holder_type": RECORDS, "inline_base": RECORDS,
           "getter_for": METHODS, "setter_for": METHODS, "implicit_conversion": CTORS, "keep_alive": FUNCS, "noconvert": FUNCS, "required": FUNCS,
           "return_value_policy": FUNCS, "manual": VARS, "postamble": VARS, "module": {"namespace"}, "only_expose_in": {"namespace"}, "expose_here": ALIASES,
           "encourage": ALIASES, "readonly": VARS, "visible": set(DECLS), "hidden": set(DECLS), "expose_as": set(DECLS)}
BOOLS = ("arithmetic", "export_values", "dynamic_attr", "readonly", "implicit_conversion")
HAS_THIS = {"method", "getter", "setter", "getter_default", "void_method", "ctor0", "ctor1", "ctor2", "operator", "call", "method_template_class"}
S, B, D, N = "string", "bool", "default", "number"
TEXT = {B: ["true", "false"], D: ["default"], N: ["0", "7", "4294967295"]}


def ident(r):
    return r.choice(["foo", "_x", "Bar9", "a", "__init", "x_y_z"])


def spell(r, s):
    return s if re.fullmatch(r"[A-Za-z_]\w*", s) and s not in ("true", "false", "default") and r.random() < .5 else '"%s"' % s


def arg(r, kind, s=None):
    return spell(r, s if s is not None else ident(r)) if kind == S else r.choice(TEXT[kind])


def valid(r, kind, params):
    """A random annotation that is valid for the declaration, or None."""
    a = r.choice([a for a in APPLIES if kind in APPLIES[a] and a not in ("manual", "postamble")])
    if a == "hidden":
        return r.choice(["hidden", "hidden()"])
    if a == "visible":
        return r.choice(["visible", "visible()", "visible(true)", "visible(false)", "visible(default)"])
    if a == "expose_as":
        return "expose_as(%s)" % r.choice([arg(r, S), arg(r, S), "default"])
    if a in BOOLS:
        if a == "implicit_conversion" and kind != "ctor1":
            return None
        return a + r.choice(["", "()", "(true)", "(false)"])
    if a == "module":
        return r.choice(["module", "module()", "module(%s)" % arg(r, S)])
    if a == "only_expose_in":
        return "only_expose_in(%s)" % ", ".join(arg(r, S) for _ in range(r.randrange(1, 4)))
    if a in ("hide_base", "inline_base"):
        return None if kind != "class" else a + r.choice(["", "()", "(TopBase)", '("::TopBase")', '("TopBase", "Nope")'])
    if a == "holder_type":
        return 'holder_type("std::shared_ptr<@>")' if kind in ("struct", "class") and False else None
    if a in ("getter_for", "setter_for"):
        if kind not in (("getter",) if a == "getter_for" else ()):
            return None
        return "%s(%s)" % (a, ", ".join("@p%d" % i for i in range(r.randrange(1, 3))))
    if a == "keep_alive":
        nodes = list(params) + (["this"] if kind in HAS_THIS else []) + ["return"]
        return "keep_alive(%s, %s)" % (spell(r, r.choice(nodes)), spell(r, r.choice(nodes)))
    if a in ("noconvert", "required"):
        return "%s(%s)" % (a, ", ".join(spell(r, r.choice(params)) for _ in range(r.randrange(1, 3)))) if params else None
    if a == "return_value_policy":
        return "return_value_policy(%s)" % spell(r, r.choice(["copy", "move", "reference", "automatic"]))
    return a + r.choice(["", "()"])


def invalid(r, kind, params):
    how = r.choice(["unknown", "malformed", "kind", "kind", "count", "count", "type", "type", "spelling", "param", "signature", "conflict"])
    ok = [a for a in APPLIES if kind in APPLIES[a]]
    if how == "unknown":
        return how, r.choice(["visble", "Visible", "expose", "hide", "readonly_", "keepalive(a, b)", "true", "default", "exposeas(foo)", "GENPYBIND", "visible_", "inline_bases", "opaque(true)", "tag(foo)", "x"])
    if how == "malformed":
        return how, r.choice(["visible hidden", "visible(true false)", "visible true", "5", '"visible"', "(visible)", "visible = true", ", visible", "visible(true)(false)", "visible; hidden", "expose_as(foo::bar)",
                              "expose_as(-1)", "visible(())", "expose_as((foo))", "visible:true", "visible(,)", "visible(true,,)", "expose_as('x')", "expose_as(4294967296)", "expose_as(1.5)", "visible,, hidden", "visible, (hidden)",
                              "expose_as(foo, )(x)", "visible[0]", "@", "expose_as(foo bar)", "hidden.visible", "visible|hidden", "!visible", "expose_as(%)"])
    if how == "kind":
        a = r.choice([a for a in APPLIES if kind not in APPLIES[a]])
        text = {"module": ["module", "module(foo)"], "only_expose_in": ["only_expose_in(foo)"], "hide_base": ["hide_base", 'hide_base("X")'], "inline_base": ["inline_base", 'inline_base("X")'], "holder_type": ['holder_type("std::shared_ptr<X>")'],
                "getter_for": ["getter_for(foo)"], "setter_for": ["setter_for(foo)"], "keep_alive": ["keep_alive(return, this)", "keep_alive(a, b)"], "noconvert": ["noconvert(a)"], "required": ["required(a)"],
                "return_value_policy": ["return_value_policy(copy)"]}.get(a, [a, a + "()"] + ([a + "(true)"] if a in BOOLS else []))
        return "kind", r.choice(text)
    if how == "count":
        a = r.choice(ok)
        few = {"expose_as": 1, "only_expose_in": 1, "holder_type": 1, "keep_alive": 2, "noconvert": 1, "required": 1, "return_value_policy": 1, "getter_for": 1, "setter_for": 1}
        most = {"hidden": 0, "visible": 1, "expose_as": 1, "module": 1, "holder_type": 1, "keep_alive": 2, "return_value_policy": 1, "expose_here": 0, "encourage": 0, "manual": 0, "postamble": 0}
        most.update({b: 1 for b in BOOLS})
        opts = []
        if a in few:
            opts += [a, a + "()"] + ([a + "(return)"] if a == "keep_alive" else [])
        if a in most:
            n = most[a] + 1 + (r.random() < .2)
            one = {"visible": "true", "keep_alive": "return"}.get(a, "true" if a in BOOLS else "foo")
            opts += ["%s(%s)" % (a, ", ".join([one] * n))]
        return ("count", r.choice(opts)) if opts else (None, None)
    if how == "type":
        a = r.choice(ok)
        allowed = {"visible": {B, D}, "expose_as": {S, D}}.get(a, {B} if a in BOOLS else {S})
        if a in ("hidden", "expose_here", "encourage", "manual", "postamble"):
            return None, None
        bad = arg(r, r.choice(sorted({S, B, D, N} - allowed)), r.choice(["true", "x", "yes", ""]) if S not in allowed else None)
        if a == "keep_alive":
            return "type", r.choice(["keep_alive(return, %s)", "keep_alive(%s, return)"]) % bad
        if a in ("only_expose_in", "hide_base", "inline_base") and r.random() < .5:
            return "type", r.choice(["%s(foo, %s)", "%s(%s, foo)"][:1]) % (a, bad)
        return "type", "%s(%s)" % (a, bad)
    if how == "spelling":
        a = r.choice(["expose_as"] + (["module"] if kind == "namespace" else []) + (["getter_for"] if kind == "getter" else []) + (["setter_for"] if kind == "setter" else []))
        return how, '%s("%s")' % (a, r.choice(["", " ", "a b", "1a", "a-b", "a.b", "a::b", "ä", "a ", " a", "foo()", "+", "operator+", "a$b" if False else "a#b", "x\\ty", "\u2713", "9"]))
    if how == "param" and kind in FUNCS:
        bad = r.choice(["zz", "A", "b_", "return_", "thiss", "a b", "self", "T", "int", "0"])
        if bad in params:
            bad = "zz"
        a = r.choice(["noconvert", "required", "keep_alive", "keep_alive"])
        if a != "keep_alive":
            bad = r.choice([bad, "return", "this"])
            names = [spell(r, p) for p in params if r.random() < .5]
            names.insert(r.randrange(len(names) + 1), spell(r, bad))
            return how, "%s(%s)" % (a, ", ".join(names))
        if kind not in HAS_THIS and r.random() < .4:
            bad = "this"
        pair = [spell(r, bad), spell(r, r.choice(["return"] + list(params)))]
        r.shuffle(pair)
        return how, "keep_alive(%s)" % ", ".join(pair)
    if how == "signature":
        if kind in ("void_method", "method", "static_method", "method_template_class", "setter"):
            return how, "getter_for(@p)"
        if kind in ("ctor0", "ctor2"):
            return how, r.choice(["implicit_conversion", "implicit_conversion(true)"])
        if kind in VARS:
            return how, r.choice(["manual", "postamble"])
    if how == "signature" and kind in ("getter", "void_method", "method", "static_method"):
        return how, "setter_for(@p)"
    if how == "conflict" and kind in ALIASES:
        return how, r.choice(["encourage, expose_here", "expose_here, encourage"])
    return None, None


class Builder:
    def __init__(self, rng):
        self.r, self.n = rng, 0
        self.files = {"m.h": [], "inc.h": []}
        self.bad = {}          # (file, line) -> kind of error
        self.features = set()
        self.used_main = []

    def decl(self, wrong):
        r = self.r
        for _ in range(200):
            kind = r.choice(list(DECLS))
            text, params, scopes = DECLS[kind]
            anns = []
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                a = valid(r, kind, params)
                if a and a.split("(")[0] not in [x.split("(")[0] for x in anns]:
                    anns.append(a)
            names = {x.split("(")[0] for x in anns}
            if {"encourage", "expose_here"} <= names or {"hide_base", "inline_base"} <= names:
                continue
            if not wrong and kind in ALIASES and "expose_here" in names:
                continue      # several of these conflict with each other: see semantic()
            if wrong:
                how, a = invalid(r, kind, params)
                if how is None:
                    continue
                anns.insert(r.randrange(len(anns) + 1), a)
                if r.random() < .1:
                    how2, a2 = invalid(r, kind, params)
                    if how2 not in (None, "malformed"):
                        anns.append(a2)
                self.features.add("%s/%s" % (how, kind))
                self.features.add("how/" + how)
            else:
                self.features.add("valid/" + kind)
                for a in anns:
                    self.features.add("valid/%s/%s" % (kind, a.split("(")[0]))
            break
        self.n += 1
        name = "d%d" % self.n
        # one or several annotation macros
        if len(anns) > 1 and r.random() < .4:
            cut = r.randrange(1, len(anns))
            ann = "GENPYBIND(%s) GENPYBIND(%s)" % (", ".join(anns[:cut]), ", ".join(anns[cut:]))
        else:
            ann = "GENPYBIND(%s)" % ", ".join(anns) if anns or r.random() < .5 else ""
        if ann and r.random() < .12:
            # annotations for other tools are none of our business
            other = r.choice(['__attribute__((annotate("other")))', '__attribute__((annotate("visible, bogus")))', '__attribute__((annotate("")))', '__attribute__((unused))'])
            ann = r.choice([other + " " + ann, ann + " " + other])
            self.features.add("foreign annotation")
        lines = (text.replace("%s", ann) if "%s" in text else text).replace("@", name).split("\n")
        scope = r.choice(scopes)
        self.features.add("scope/" + scope)
        f = "inc.h" if scope == "inc" else "m.h"
        out = self.files[f]
        pre, post = {"top": ("", ""), "inc": ("", ""), "ns": ("namespace n%s%s {" % (name, r.choice(["", " GENPYBIND(module)", " GENPYBIND(visible)"])), "}"), "cls": ("struct %sC%s {" % (r.choice(["GENPYBIND(visible) ", "", "GENPYBIND(hidden) "]), name), "};"),
                     "tmpl": ("template <typename T> struct C%s {" % name, "}; template struct C%s<int>;" % name), "priv": ("class GENPYBIND(visible) C%s {" % name, "};"), "ext": ("extern \"C++\" {", "}"),
                     "nested": ("namespace n%s { struct Q { struct R {" % name, "}; }; }")}[scope]
        if pre:
            out.append(pre)
        for i, l in enumerate(lines):
            if wrong and ann and ann.replace("@", name) in l:
                self.bad[(f, len(out) + 1)] = anns
            # the annotation is only written once, later redeclarations inherit it
            out.append(l)
        if post:
            out.append(post)

    def case(self, name, judge_extra=None, **kw):
        head = ["#pragma once", "#include <genpybind/genpybind.h>", "struct GENPYBIND(visible) TopBase {};", "enum TopEnum { top_e };"]
        inc = ["#pragma once", "#include <genpybind/genpybind.h>", "#include \"base.h\""] + self.files["inc.h"]
        head = head[:2] + ["#include \"base.h\"", "#include \"inc.h\""]
        off = {"m.h": len(head), "inc.h": 3}
        bad = {(f, l + off[f]) for f, l in self.bad}
        files = {"inc.h": "\n".join(inc) + "\n", "base.h": "#pragma once\n#include <genpybind/genpybind.h>\nstruct GENPYBIND(visible) TopBase {};\nenum GENPYBIND(visible) TopEnum { top_e };\n"}
        header = "\n".join(head + self.files["m.h"]) + "\n"
        texts = {"m.h": header.split("\n"), "inc.h": inc}

        def judge(obs):
            got = {(a, int(b)) for a, b in re.findall(r"(?:^|/)(m\.h|inc\.h|base\.h):(\d+):\d+: (?:fatal )?error: ", obs["err"], re.M)}
            # declarations that are repeated inherit the annotations: only the first one is required
            extra = {x for x in got - bad if not any((x[0], x[1] - 1) in bad for _ in [0]) or "inline TopBase *" not in texts[x[0]][x[1] - 1]}
            p = ["no error reported for line %d of %s: %s" % (l, f, texts[f][l - 1].strip()) for f, l in sorted(bad - got)]
            p += ["error reported for line %d of %s, whose annotations are valid: %s\n%s" % (l, f, texts[f][l - 1].strip() if l <= len(texts.get(f, ())) else "", obs["err"][:600]) for f, l in sorted(extra)]
            n = len(re.findall(r": (?:fatal )?error: ", obs["err"]))
            if not bad and n:
                p.append("errors were reported, although all annotations are valid: " + obs["err"][:800])
            return p
        return Case(name, header, files=files, expect="error" if bad else "accept", judge=judge, features=sorted(self.features), tool_args=kw.pop("tool_args", ()), **kw)


def mixed(rng, i):
    b = Builder(rng)
    wrong = rng.choice([0, 0, 1, 1, 1, 3, 10])
    total = rng.randrange(max(1, wrong), 24)
    flags = [True] * wrong + [False] * (total - wrong)
    rng.shuffle(flags)
    for w in flags:
        b.decl(w)
    return b.case("mixed/%d" % i, cc=["-ferror-limit=0"] if rng.random() < .3 else [])


# Errors that are only found once all declarations are known (one per header): text, number of the line(s) with errors
LATE = [
    ("namespace_mismatch", "namespace a GENPYBIND(module) { struct GENPYBIND(visible) X {}; }\nnamespace a { struct GENPYBIND(visible) Y {}; } // BAD", None),
    ("namespace_mismatch2", "namespace a { struct GENPYBIND(visible) X {}; }\nnamespace a GENPYBIND(visible) { struct Y {}; } // BAD", None),
    ("namespace_mismatch3", "namespace a GENPYBIND(module(b)) { struct GENPYBIND(visible) X {}; }\nnamespace a GENPYBIND(module(c)) { struct GENPYBIND(visible) Y {}; } // BAD", None),
    ("twice_exposed", "struct GENPYBIND(visible) T {};\nnamespace x { typedef T A GENPYBIND(expose_here); }\nnamespace y { typedef T B GENPYBIND(expose_here); } // BAD", None),
    ("twice_exposed_template", "template <typename T> struct X {};\nstruct GENPYBIND(visible) S { typedef X<int> A GENPYBIND(expose_here); typedef int no; };\nusing B GENPYBIND(expose_here) = X<int>; // BAD", None),
    ("no_getter", "struct GENPYBIND(visible) S {\n  void set(int) GENPYBIND(setter_for(v)); // BAD\n};", None),
    ("no_getter_other", "struct GENPYBIND(visible) S {\n  int get() const GENPYBIND(getter_for(w));\n  void set(int) GENPYBIND(setter_for(v)); // BAD\n};", None),
    ("two_getters", "struct GENPYBIND(visible) S {\n  int get() const GENPYBIND(getter_for(v));\n  int get2() const GENPYBIND(getter_for(v)); // BAD\n};", None),
    ("two_setters", "struct GENPYBIND(visible) S {\n  int get() const GENPYBIND(getter_for(v));\n  void set(int) GENPYBIND(setter_for(v));\n  void set(long) GENPYBIND(setter_for(v)); // BAD\n};", None),
    ("setter_two", "struct GENPYBIND(visible) S {\n  int get() const GENPYBIND(getter_for(v));\n  void set(int, int, int = 1) GENPYBIND(setter_for(v)); // BAD\n};", None),
    ("setter_none", "struct GENPYBIND(visible) S {\n  int get() const GENPYBIND(getter_for(v));\n  void set() GENPYBIND(setter_for(v)); // BAD\n};", None),
    ("getter_one", "struct GENPYBIND(visible) S {\n  int get(int, int = 1) const GENPYBIND(getter_for(v)); // BAD\n};", None),
    ("getter_void", "struct GENPYBIND(visible) S {\n  void get(int = 1) const GENPYBIND(getter_for(v)); // BAD\n};", None),
    *[("manual_lambda%d" % i, "GENPYBIND(manual) static const auto man%d = %s; // BAD" % (i, l), None) for i, l in enumerate(
        ["[](int) {}", "[](int &&) {}", "[](int &, int &) {}", "[] {}", "[]() {}", "[](auto) {}", "[](auto &&) {}", "[](...) {}", "+[](int &) {}", "3", "nullptr", "(struct Q *)0"])],
    ("manual_extern", "GENPYBIND(manual) extern const int man; // BAD", None),
    ("postamble_lambda", "GENPYBIND(postamble) static const auto man = [](int &&) {}; // BAD", None),
    ("alias_int", "typedef int X GENPYBIND(visible); // BAD", None),
    ("alias_pointer", "struct S {};\nusing X GENPYBIND(expose_here) = S *; // BAD", None),
    ("alias_incomplete", "struct S;\nusing X GENPYBIND(encourage) = S; // BAD", None),
    ("cycle", "struct GENPYBIND(visible) A;\nstruct GENPYBIND(visible) B { typedef A X GENPYBIND(expose_here); // BAD?\n};\nstruct A { typedef B Y GENPYBIND(expose_here); // BAD?\n};", None),
    ("self_cycle", "struct GENPYBIND(visible) A { typedef A X GENPYBIND(expose_here); // BAD\n};", None),
    ("postamble_in_namespace", "namespace n {\nGENPYBIND(postamble) GENPYBIND_MANUAL({ (void)parent; }) // BAD\n}", None),
    ("postamble_in_class", "struct GENPYBIND(visible) n {\nGENPYBIND(postamble) GENPYBIND_MANUAL({ (void)parent; }) // BAD\n};", None),
    ("pragma", "#pragma genpybind frobnicate // BAD", None),
    ("pragma_include", "#pragma genpybind include // BAD", None),
]
WARN = [
    ("unreachable", "struct A { struct GENPYBIND(visible) B {}; };\n%s", "warning"),
    ("hidden_parent", "struct GENPYBIND(hidden) A { GENPYBIND(visible) int x; };\n%s", None),
    ("unknown_base", "struct GENPYBIND(visible, hide_base(\"Nope\")) A : TopBase {};\n%s", "warning"),
    ("unknown_inline_base", "struct GENPYBIND(visible, inline_base(\"Nope\")) A : TopBase {};\n%s", "warning"),
    ("no_base", "struct GENPYBIND(visible, hide_base) A {};\n%s", "warning"),
    ("qualified_alias", "struct GENPYBIND(visible) A { typedef const TopBase X GENPYBIND(visible); };\n%s", "warning"),
    ("clang_warning", "#warning something\n%s", None),
    ("postamble", "GENPYBIND(postamble) GENPYBIND_MANUAL({ (void)parent; })\nnamespace n { GENPYBIND_MANUAL({ (void)parent; }) }\nGENPYBIND_MANUAL({ (void)parent; })%s", None),
    ("empty", "struct GENPYBIND() A {}; GENPYBIND() void f();\n%s", None),
    ("same_namespace", "namespace a GENPYBIND(module) { struct GENPYBIND(visible) X {}; }\nnamespace a GENPYBIND(module) { struct GENPYBIND(visible) Y {}; }\n%s", None),
    ("plain_namespace", "namespace a GENPYBIND(module) { struct GENPYBIND(visible) X {}; }\nnamespace a { struct Y {}; }\n%s", None),
    ("property", "struct GENPYBIND(visible) S { int get() const GENPYBIND(getter_for(v, w)); void set(int) GENPYBIND(setter_for(v)); void set2(int, int = 2) GENPYBIND(setter_for(w)); };\n%s", None),
    ("property_defaults", "struct GENPYBIND(visible) S { int get(int = 1, int = 2) const GENPYBIND(getter_for(v, w, x)); void set(int, int = 2, int = 3) GENPYBIND(setter_for(v)); void set2(int = 1, int = 2, int = 3) GENPYBIND(setter_for(w)); int set3(long = 1) GENPYBIND(setter_for(x)); };\n%s", None),
    ("manual_lambda", "GENPYBIND(manual) static const auto man = [](int &) {}; GENPYBIND(manual) static const auto man2 = [](auto &parent) { (void)parent; };\n%s", None),
    ("hidden_setter", "struct GENPYBIND(visible) S { int get() const GENPYBIND(getter_for(v)); };\nstruct GENPYBIND(visible) R { int get() const GENPYBIND(getter_for(v)); };\n%s", None),
    ("encouraged_twice", "template <typename T> struct X {};\nusing A GENPYBIND(encourage) = X<int>;\nusing B GENPYBIND(encourage) = X<int>;\nusing C GENPYBIND(visible) = X<int>;\n%s", None),
]


def semantic(rng, name, text, extra):
    b = Builder(rng)
    for _ in range(rng.randrange(3)):
        b.decl(False)
    base = len(b.files["m.h"])
    lines = text.split("\n")
    out = b.files["m.h"]
    start = len(out)
    out += lines
    for i, l in enumerate(lines):
        if l.endswith("// BAD"):
            b.bad[("m.h", start + i + 1)] = name
    maybe = [l for l in lines if l.endswith("// BAD?")]
    for _ in range(rng.randrange(3)):
        b.decl(False)
    b.features.add("late/" + name)
    case = b.case("late/" + name)
    if maybe:
        # any of the lines is a fine place for the error
        def judge(obs):
            return [] if re.search(r"m\.h:\d+:\d+: error: ", obs["err"]) else ["no error reported"]
        case.expect, case.judge = "error", judge
    return case


def warning(rng, name, text, want):
    b = Builder(rng)
    for _ in range(rng.randrange(3)):
        b.decl(False)
    b.files["m.h"] += (text % "").strip("\n").split("\n")
    for _ in range(rng.randrange(3)):
        b.decl(False)
    b.features.add("warn/" + name)
    case = b.case("warn/" + name)
    inner = case.judge

    def judge(obs):
        p = inner(obs)
        if want and want + ":" not in obs["err"]:
            p.append("no warning reported")
        return p
    case.judge = judge
    return case


def matrix(rng, per_case):
    """Every annotation on every kind it does not apply to (one per header line)."""
    todo = [(a, k) for a in APPLIES for k in DECLS if k not in APPLIES[a]]
    rng.shuffle(todo)
    todo.sort(key=lambda x: DECLS[x[1]][2])
    out, chunk = [], []
    for a, k in todo:
        chunk.append((a, k))
        if len(chunk) == per_case:
            out.append(matrix_case(rng, chunk))
            chunk = []
    if chunk:
        out.append(matrix_case(rng, chunk))
    return out


def matrix_case(rng, chunk):
    b = Builder(rng)
    for a, k in chunk:
        text, params, scopes = DECLS[k]
        args = {"only_expose_in": "(foo)", "holder_type": '("std::shared_ptr<int>")', "getter_for": "(foo)", "setter_for": "(foo)", "keep_alive": "(return, %s)" % (params[0] if params else "return"), "noconvert": "(%s)" % (params[0] if params else "a"),
                "required": "(%s)" % (params[0] if params else "a"), "return_value_policy": "(copy)"}.get(a, "")
        b.n += 1
        name = "d%d" % b.n
        ann = "GENPYBIND(%s%s)" % (a, args)
        scope = "cls" if "cls" in scopes and "top" not in scopes else "top"
        out = b.files["m.h"]
        if scope == "cls":
            out.append("struct C%s {" % name)
        for l in text.replace("%s", ann).replace("@", name).split("\n"):
            if ann in l:
                b.bad[("m.h", len(out) + 1)] = ann
            out.append(l)
        if scope == "cls":
            out.append("};")
        b.features.add("matrix/%s/%s" % (a, k))
    rng.shuffle
    return b.case("matrix/%s" % chunk[0][0], cc=["-ferror-limit=0"])


def tasks(rng, tier):
    quick = tier == "quick"
    out = matrix(rng, 18)
    for _ in range(1 if quick else 20):
        out += [semantic(rng, *x) for x in LATE] + [warning(rng, *x) for x in WARN]
    out += [mixed(rng, i) for i in range(1200 if quick else 20000)]
    return out
