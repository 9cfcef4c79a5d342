"""Exactly the visible, accessible declarations are exposed."""
import re

from ..engine import Exc, Pred
from ..gen import VAL, batch
from ..world import world_case

RULE = ("random annotated programs (namespaces, reopened and linkage blocks, classes with access sections, "
        "enums, functions, overload sets, operators, constructors, aliases, relocations) whose complete module "
        "interface is compared with a visibility model, plus value probes; a case is distinct by header text and "
        "non-trivial if it was compiled, imported and its interface compared")


def rvis(r):
    """(annotation, explicit visibility or None)"""
    return r.choice([("", None), ("", None), ("GENPYBIND(visible)", True), ("GENPYBIND(hidden)", False),
                     ("GENPYBIND(visible(default))", None), ("GENPYBIND(visible(false))", False),
                     ("GENPYBIND(visible(true))", True), ("GENPYBIND(hidden, visible)", True)])


TYPES = [("int", "7"), ("const char *", "'s'"), ("double", "1.5"), ("bool", "True")]


def overloads(h):
    """Overload set with mixed visibility; each overload told apart by arity."""
    r, f, ns = h.rng, h.id("ovl"), h.id("ns")
    dflt = r.random() < .5
    cls = r.random() < .5
    lines, exp = [], []
    for argc in range(4):
        a, v = rvis(r)
        k = 100 + argc
        st = "static " if cls and r.random() < .5 else ""
        if cls and argc and any(x.startswith(argc * "?") for x in ()):
            pass
        lines.append("%s %sint %s(%s) { return %d; }" % (
            a, st if cls else "inline ", f, ", ".join("int a%d" % i for i in range(argc)), k))
        exp.append((argc, k, v if v is not None else dflt, bool(st)))
    if cls:
        # pybind11 does not allow mixing static and instance overloads
        static = [e for e in exp if e[3]]
        if static and len(static) != len(exp):
            lines = [x.replace("static int", "int") for x in lines]
            static = []
        is_static = bool(static)
        h.add("struct %s %s {" % ("GENPYBIND(visible)", ns), *lines)
        h.add("};")
        if not dflt:
            # members of a visible class are visible by default
            exp = [(argc, k, v if "GENPYBIND" in l and ("true" in l or "false" in l or "hidden" in l or "(visible)" in l)
                    else True, s) for (argc, k, v, s), l in zip(exp, lines)]
        o = "m.%s" % ns if is_static else "m.%s()" % ns
    else:
        h.add("namespace %s %s {" % (ns, "GENPYBIND(visible)" if dflt else ""), *lines)
        h.add("}")
        o = "m"
    any_vis = any(v for _, _, v, _ in exp)
    h.probe("hasattr(%s, %r)" % (o, f), any_vis)
    if any_vis:
        for argc, k, v, _ in exp:
            h.probe("%s.%s(%s)" % (o, f, ", ".join("1" * argc)), k if v else Exc("TypeError"))


OPS = [("+", "__add__", "x + 1"), ("-", "__sub__", "x - 1"), ("*", "__mul__", "x * 1"), ("%", "__mod__", "x % 1"),
       ("<", "__lt__", "x < 1"), ("==", "__eq__", "x == 1"), ("&", "__and__", "x & 1"), ("<<", "__lshift__", "x << 1")]


def operators(h):
    """Operators as members, friends and free functions with visibilities."""
    r, c, ns = h.rng, h.id("Op"), h.id("ns")
    nsvis = r.random() < .5
    lines, after, want = [], [], {}
    for op, dunder, _ in OPS:
        how = r.choice(["member", "friend", "free", "none", "private", "deleted"])
        a, v = rvis(r)
        if how == "member":
            lines.append("%s int operator%s(int) const { return 1; }" % (a, op))
            want[dunder] = v is not False
        elif how == "friend":
            lines.append("%s friend int operator%s(const %s &, int) { return 1; }" % (a, op, c))
            want[dunder] = v is not False
        elif how == "free":
            after.append("%s inline int operator%s(const %s &, int) { return 1; }" % (a, op, c))
            want[dunder] = v is not False
        elif how == "private":
            lines.append("private:\nint operator%s(int) const { return 1; }\npublic:" % op)
        elif how == "deleted":
            lines.append("%s int operator%s(int) const = delete;" % (a, op))
    h.add("namespace %s %s {" % (ns, "GENPYBIND(visible, module)" if nsvis else "GENPYBIND(module)"),
          "struct GENPYBIND(visible) %s {" % c, *lines)
    h.add("};", *after)
    h.add("}")
    h.probe("sorted(k for k in m.%s.%s.__dict__ if k in %r and m.%s.%s.__dict__[k] is not None)" % (
        ns, c, [o[1] for o in OPS], ns, c), sorted(k for k, v in want.items() if v))


def access(h):
    """Members in all access sections, with and without annotations."""
    r, c = h.rng, h.id("Acc")
    lines, want = [], []
    kinds = ["int %s() const { return 1; }", "static int %s() { return 1; }", "int %s = 1;", "inline static int %s = 1;",
             "enum class %s { a };", "struct %s { int y; };"]
    for i in range(r.randrange(6, 14)):
        acc = r.choice(["public", "protected", "private"])
        n = "m%d" % i
        k = r.choice(kinds)
        tag = k.startswith(("enum", "struct"))
        a, v = rvis(r)
        if tag:
            a, v = r.choice([("", None), ("GENPYBIND(hidden)", False)]) if acc != "public" else (a, v)
            kw = k.split(" %s")[0]
            text = k.replace(kw, kw + " " + a, 1) % n
        else:
            text = a + " " + k % n
        lines += [acc + ":", text]
        if acc == "public" and v is not False:
            want.append(n)
    kw = r.choice(["struct", "class"])
    h.add("%s GENPYBIND(visible) %s {" % (kw, c), *lines)
    h.add("};")
    h.probe("sorted(k for k in dir(m.%s) if k[0] == 'm')" % c, sorted(want))


def function_templates(h):
    """Explicit instantiations follow the template; others do not appear."""
    r, f, ns = h.rng, h.id("ft"), h.id("ns")
    dflt = r.random() < .5
    a, v = rvis(r)
    vis = v if v is not None else dflt
    inst = r.random() < .7
    h.add("namespace %s %s {" % (ns, "GENPYBIND(visible)" if dflt else ""),
          "template <typename T> %s int %s(T) { return 1; }" % (a, f))
    if inst:
        h.add("template int %s<int>(int);" % f)
    h.add("}")
    h.probe("hasattr(m, %r)" % f, bool(vis and inst))


def deep_default(h):
    """Visibility is inherited through any number of unannotated scopes and
    overridden by the closest explicit one."""
    r = h.rng
    depth = r.randrange(2, 7)
    eff = False
    opened, names = [], []
    dead = False
    for d in range(depth):
        n = h.id("d")
        a, v = rvis(r)
        is_cls = d >= depth // 2 and r.random() < .6 or (opened and opened[-1] == "struct")
        if is_cls:
            eff = eff if v is None else v
            h.add("struct %s %s {" % (a, n))
            opened.append("struct")
            names.append((n, "class", eff and not dead))
            dead = dead or not eff
        else:
            eff = eff if v is None else v
            h.add("namespace %s %s {" % (n, a))
            opened.append("namespace")
        a2, v2 = rvis(r)
        fn = h.id("fn")
        visible = (eff if v2 is None else v2) and not dead
        h.add("%s %s int %s() { return 1; }" % (a2, "static" if is_cls else "inline", fn))
        names.append((fn, "fn", visible))
    for k in reversed(opened):
        h.add("};" if k == "struct" else "}")
    for n, k, v in names:
        h.probe("[k for k in api(m) if k.split('.')[-1] == %r].__len__()" % n, int(bool(v)))


def using_access(h):
    """Using declarations expose a base member exactly if they are public."""
    r, b, c = h.rng, h.id("UB"), h.id("UD")
    kinds = ["int %s() const { return 1; }", "static int %s() { return 1; }", "int %s = 1;", "inline static int %s = 1;"]
    n = r.randrange(2, 8)
    # only targets that say nothing themselves
    bl = [r.choice(kinds) % ("u%d" % i) for i in range(n)]
    lines, want = [], []
    for i in range(n):
        acc = r.choice(["public", "protected", "private", None])
        if acc:
            lines += [acc + ":", "using %s::u%d;" % (b, i)]
            if acc == "public":
                want.append("u%d" % i)
    if r.random() < .5:
        lines.append("public:\nint u99 = 1;")
        want.append("u99")
    h.add("struct %s { %s };" % (b, " ".join(bl)), "class GENPYBIND(visible) %s : public %s {" % (c, b), *lines)
    h.add("};")
    h.probe("sorted(k for k in dir(m.%s) if k[0] == 'u')" % c, sorted(want))


def redeclared(h):
    """The annotation may be on any declaration of an entity."""
    r = h.rng
    a, v = rvis(r)
    dflt = r.random() < .5
    vis = dflt if v is None else v
    ns, n = h.id("ns"), h.id("re")
    kind = r.choice(["fn", "struct", "enum", "var", "class"])
    where = r.randrange(3)
    decls = {"fn": ["%s inline int N();", "%s int N();", "%s inline int N() { return 1; }"],
             "struct": ["struct %s N;", "struct %s N;", "struct %s N { int y = 1; };"],
             "class": ["class %s N;", "class %s N { public: int y = 1; };", "class %s N;"],
             "enum": ["enum class %s N : int;", "enum class %s N : int;", "enum class %s N : int { one };"],
             "var": ["%s extern int N;", "%s extern int N;", "%s inline int N = 1;"]}[kind]
    # an annotation after the definition of a type is not allowed in C++
    if kind == "class" and where == 2:
        where = 1
    if kind == "var":
        where = 2 if where == 2 else where
    text = [d.replace("N", n) % (a if i == where else "") for i, d in enumerate(decls)]
    if r.random() < .5 and kind != "var":
        h.add(*["namespace %s %s { %s }" % (ns, "GENPYBIND(visible)" if dflt else "GENPYBIND(hidden)", t) for t in text])
    else:
        h.add("namespace %s %s {" % (ns, "GENPYBIND(visible)" if dflt else "GENPYBIND(hidden)"), *text)
        h.add("}")
    h.probe("hasattr(m, %r)" % n, bool(vis))


def odd_members(h):
    """What else a class may contain: exactly the exposable part shows up."""
    r, c = h.rng, h.id("Odd")
    pool = [("~%s() {}" % c, None), ("template <typename T> int tm%d(T) { return 1; }", None), ("mutable int o%d = 3;", 1),
            ("static constexpr int o%d = 3;", 1), ("using o%d = int;", None), ("typedef int o%d;", None),
            ("enum o%d { };", 1), ("union o%d { int i; float f; };", 1), ("friend int ofr%d(%s) { return 1; }", None),
            ("friend struct o%d_f;", None), ("static_assert(sizeof(int) == 4);", None), ("int o%d(int) = delete;", None),
            ("virtual int o%d() { return 1; }", 1), ("int o%d() volatile { return 1; }", 0), ("struct o%d_fwd;", None),
            ("struct o%d final { };", 1), ("template <typename T> struct o%d { };", None), ("constexpr int o%d() const { return 1; }", 1),
            ("[[nodiscard]] int o%d() const noexcept { return 1; }", 1), ("auto o%d() const { return 1; }", 1),
            ("int o%d(int, ...) { return 1; }", 0), ("template <typename T> inline static int o%d = 2;", None),
            ("static int o%d(int a = 1) { return a; }", 1), ("const char *o%d = nullptr;", 1), ("inline static const int o%d = 4;", 1)]
    pool = [p for p in pool if p[1] != 0]
    lines, want = [], []
    for i, (t, ok) in enumerate(r.sample(pool, r.randrange(4, 12))):
        if "%s" in t:
            t = t % (i, c)
        elif "%d" in t:
            t = t % i
        acc = r.choice(["public", "public", "public", "private", "protected"])
        if acc != "public" and t.startswith("~"):
            acc = "public"
        lines += [acc + ":", t]
        if ok and acc == "public":
            want.append("o%d" % i)
    h.add("struct GENPYBIND(visible) %s {" % c, *lines)
    h.add("};")
    h.probe("sorted(k for k in dir(m.%s) if k[0] == 'o')" % c, sorted(want))
    h.probe("[k for k in vars(m) if k.startswith(('tm', 'ofr')) or k == 'o']", [])


def odd_globals(h):
    r, ns = h.rng, h.id("ns")
    pool = [("static int q%d() { return 1; }", 1), ("extern int q%d; inline int q%d = 1;", 1), ("template <typename T> constexpr int q%d = 3;", None),
            ("template <typename T> using q%d = T;", None), ("inline int q%d() { struct Loc { int a; }; return Loc{1}.a; }", 1),
            ("int q%d() = delete;", None), ("struct q%d;", None), ("union q%d { int a; float f; };", 1), ("using q%d = int;", None),
            ("template <typename T> struct q%d { };", None), ("constexpr int q%d = 5;", 1), ("enum q%d : int;", 2), ("enum class q%d { };", 1),
            ("namespace q%d { }", None), ("namespace q%dx { } namespace q%d = q%dx;", None), ("static_assert(true);", None),
            ("template <typename T> concept q%d = true;", None), ("inline constexpr auto q%d() { return 1; }", 1),
            ("template <typename T> int q%d(T) { return 1; }", None), ("struct q%d { friend int qfr%d(int) { return 1; } };", 1),
            ("inline thread_local int q%d = 3;", 1), ("struct q%d { template <typename T> q%d(T) {} };", 1)]
    lines, want = [], []
    vis = r.random() < .75
    for i, (t, ok) in enumerate(r.sample(pool, r.randrange(4, 12))):
        lines.append(t.replace("%d", "%d_%s" % (i, ns)))
        if ok == 1 and vis:
            want.append("q%d_%s" % (i, ns))
    h.add("namespace %s %s {" % (ns, "GENPYBIND(visible)" if vis else ""), *lines)
    h.add("}")
    opaque = ["q%d_%s" % (i, ns) for i, l in enumerate(lines) if l.startswith("enum q")]
    h.probe("sorted(k for k in vars(m) if k[0] == 'q' and k.endswith(%r) and k not in %r)" % ("_" + ns, opaque), sorted(want))


def constructors_implicit(h):
    """Implicit, defaulted, deleted and inaccessible constructors; abstract classes."""
    r, c = h.rng, h.id("Ct")
    decls = {"default": ["", "C() {}", "C() = default;", "C() = delete;", "private: C() {} public:", "GENPYBIND(hidden) C() {}",
                         "protected: C() = default; public:"],
             "copy": ["", "C(const C &) = default;", "C(const C &) {}", "C(const C &) = delete;", "private: C(const C &) {} public:",
                      "GENPYBIND(hidden) C(const C &) {}"],
             "move": ["", "", "C(C &&) {}"]}
    d, cp, mv = (r.choice(decls[k]) for k in ("default", "copy", "move"))
    n = r.choice(["", "C(int) {}", "explicit C(int) {}", "GENPYBIND(hidden) C(int) {}", "C(int) = delete;"])
    abstract = r.random() < .15
    has_d = d in ("C() {}", "C() = default;") or (d == "" and cp == "" and mv == "" and n == "")
    has_c = cp in ("C(const C &) = default;", "C(const C &) {}") or (cp == "" and mv == "")
    has_n = n in ("C(int) {}", "explicit C(int) {}")
    body = " ".join([d, cp, mv, n])
    h.add("struct GENPYBIND(visible) %s { %s %s ~%s() {} %s static %s &inst() { static char b[sizeof(%s) + 16]; return *(%s *)b; } };" % (
        c, re.sub(r"\bC\b", c, body), "virtual" if abstract else "", c, "virtual int pv() = 0;" if abstract else "", c, c, c))
    if abstract:
        h.probe("@try:\n m.%s()\n _ = 'ok'\nexcept TypeError:\n _ = 'no'" % c, "no")
        return
    for args, ok in (("", has_d), ("1", has_n)):
        h.probe("@try:\n m.%s(%s)\n _ = 'ok'\nexcept TypeError:\n _ = 'no'" % (c, args), "ok" if ok else "no")
    # the argument of the copy constructor comes from whichever way there is
    if has_d or has_n:
        h.probe("@try:\n m.%s(m.%s(%s))\n _ = 'ok'\nexcept TypeError:\n _ = 'no'" % (c, c, "" if has_d else "1"),
                "ok" if has_c else "no")


LONE = [("inline int N() { return 1; }", "N"), ("inline int N = 1;", "N"), ("constexpr int N = 1;", "N"),
        ("struct @ N { };", "N"), ("class @ N;  class N { };", "N"), ("struct @ N final { };", "N"), ("union @ N { int a; };", "N"), ("enum @ N { };", "N"), ("enum class @ N { };", "N"),
        ("enum @ N { N_e };", "N"), ("enum class @ N : char { e };", "N"), ("template <typename T> @ int N(T) { return 1; } template int N<int>(int);", "N"),
        ("template <typename T> struct @ N { }; template struct N<int>;", "N_int_"),
        ("template <typename T> struct N { }; using N_a GENPYBIND(encourage) = N<int>;", "N_int_"),
        ("struct N { }; using N_a GENPYBIND(encourage) = N;", "N"), ("enum class N { }; using N_a GENPYBIND(encourage) = N;", "N"),
        ("struct N_x { }; using N GENPYBIND(expose_here) = N_x;", "N"), ("enum class N_x { }; using N GENPYBIND(expose_here) = N_x;", "N")]


def lone(h):
    """A single visible declaration in otherwise hidden scopes is enough to keep them."""
    r = h.rng
    t, n = r.choice(LONE)
    name = h.id("Lo")
    a = "GENPYBIND(%s)" % r.choice(["visible", "visible(true)", "hidden, visible"])
    t = (t.replace("@", a) if "@" in t else t if "GENPYBIND" in t else a + " " + t).replace("N", name)
    t = t.replace("GE" + name + "PYBI" + name + "D", "GENPYBIND")
    n = n.replace("N", name)
    mods = []
    opening = []
    for _ in range(r.randrange(1, 5)):
        ns = h.id("ln")
        mod = r.random() < .4
        parts = ([r.choice(["hidden", "visible(false)", "visible(default)"])] if r.random() < .4 else []) + (["module"] if mod else [])
        opening.append("namespace %s %s {" % (ns, "GENPYBIND(%s)" % ", ".join(parts) if parts else ""))
        if r.random() < .5:
            opening.append(r.choice(["struct hid_%s { };" % ns, "inline int hid_%s() { return 1; }" % ns, "GENPYBIND(hidden) inline int hid_%s = 1;" % ns]))
        if mod:
            mods.append(ns)
    if r.random() < .3 and "GENPYBIND(e" not in t and "template" not in t and "inline" not in t and "constexpr" not in t:
        # inside a class that is visible, next to hidden members only
        c = h.id("LC")
        opening.append("struct GENPYBIND(visible) %s { GENPYBIND(hidden) int hid_%s; " % (c, c))
        t += " };"
        mods.append(c)
    h.add(*opening, t)
    h.add("}" * sum(l.startswith("namespace") for l in opening))
    path = ".".join(["m"] + mods + [n])
    h.probe("@try:\n _ = %s is not None\nexcept AttributeError as e:\n _ = str(e)" % path, True)
    for l in opening:
        for x in re.findall(r"hid_\w+", l):
            h.probe("[k for k in api(m) if k.split('.')[-1] == %r]" % x, [])


def using_namespace(h):
    """A using-declaration makes functions and variables members of its namespace."""
    r, src, dst = h.rng, h.id("us"), h.id("ud")
    lines, use, here, there = [], [], [], []
    for i in range(r.randrange(2, 7)):
        n = h.id("u")
        k = r.choice(["fn", "ovl", "var", "ft", "type", "enum"])
        a, v = rvis(r)
        named = r.random() < .8
        if k in ("type", "enum"):
            lines.append({"type": "struct %s { };", "enum": "enum class %s { };"}[k] % n)
            v = False
        else:
            lines.append({"fn": "%s inline int %s() { return 1; }", "var": "%s inline int %s = 1;", "ft": "template <typename T> %s int %s(T) { return 1; } template int %s(int);",
                          "ovl": "%s inline int %s() { return 1; } inline int %s(int) { return 2; }"}[k].replace("%s", a, 1).replace("%s", n))
        if k == "ovl" and v is False:
            v = None        # the other overload says nothing
        if named:
            use.append("using %s%s::%s;" % (r.choice(["", "::"]), src, n))
            if k not in ("type", "enum") and v is not False:
                there.append(n)
        if v:
            here.append(n)
    mod = r.choice([True, True, False])
    own = h.id("u")
    if r.random() < .5:
        use.append("inline int %s() { return 3; }" % own)
        there.append(own)
    if not mod:
        src_py, dst_py = "m." + src, "m"
    else:
        src_py, dst_py = "m." + src, "m." + dst
    h.add("namespace %s GENPYBIND(module) { GENPYBIND(visible) inline int u_s() { return 1; }" % src, *lines)
    h.add("}", "namespace %s GENPYBIND(visible%s) {" % (dst, ", module" if mod else ""), *use)
    h.add("}")
    if not use:
        return
    h.probe("sorted(k for k in vars(%s) if k[0] == 'u' and k != 'u_s')" % src_py, sorted(here))
    if mod:
        h.probe("sorted(k for k in vars(m).get(%r, m).__dict__ if k[0] == 'u' and k[1].isdigit())" % dst if not there else
                "sorted(k for k in vars(%s) if k[0] == 'u')" % dst_py, sorted(there) if there else Pred("anything", lambda v: True))
    else:
        names = [re.split(r"[:;]+", u)[-2] for u in use if u.startswith("using")] + [own]
        h.probe("sorted(k for k in %r if hasattr(m, k))" % (names,), sorted(there))


UNITS = [lone, lone, using_namespace, overloads, operators, access, function_templates, deep_default, using_access, redeclared, redeclared, odd_members,
         odd_globals, constructors_implicit]


def tasks(rng, tier):
    n = 130 if tier == "quick" else 2500
    out = [world_case(rng, "world/%d" % i, budget=rng.choice([6, 14, 24, 32]), explicit=rng.choice([.2, .55, .8]),
                      rename=.15, foreign=i % 3 == 0) for i in range(n)]
    m = 24 if tier == "quick" else 400
    out += batch(rng, "units", UNITS, m + 10, 12)
    return out
