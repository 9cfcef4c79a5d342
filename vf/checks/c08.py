"""Accepted headers yield bindings that compile and import; cycles are diagnosed."""
from ..engine import Case, Pred
from ..gen import H, PRE

RULE = ("random dependency graphs (nesting, inheritance, expose_here relocation, sub-modules, declaration order) with an independent decision "
        "whether an order exists; names that clash with those of the generated code; programs of all other checks compiled with other "
        "standards, compilers, options and output counts and without precompiled headers; the bindings have to compile and import and the "
        "classes have to be in place with the right bases, or the tool has to report an error if no order exists; distinct by header and options")

SETUP = '''
def res(path):
    o = m
    for p in path.split("."):
        o = getattr(o, p)
    return o
def shape(paths):
    out = {}
    for p in paths:
        try:
            o = res(p)
            out[p] = [b.__qualname__ if b.__module__ != m.__name__ else b.__qualname__ for b in o.__bases__ if b.__name__ != "pybind11_object" and b is not object]
        except Exception as e:
            out[p] = type(e).__name__ + ": " + str(e)[:80]
    return out
'''


# -- dependency graphs -------------------------------------------------------
class Node:
    def __init__(self, name, cpp, kind):
        self.name, self.cpp, self.kind = name, cpp, kind   # kind: class, enum, module, space
        self.parent = None        # lexical parent (Node or None)
        self.bases = []
        self.moved = None         # (Node or None for the root, name)
        self.lines = []
        self.final = False


def graph_case(rng, i):
    r = rng
    h = H(r)
    h.setup.append(SETUP)
    top, nodes, spaces = [], [], []
    # name spaces, some of them sub-modules
    for k in range(r.randrange(0, 4)):
        s = Node("s%d" % k, "s%d" % k, r.choice(["module", "space"]))
        if spaces and r.random() < .4:
            s.parent = r.choice(spaces)
            s.cpp = s.parent.cpp + "::" + s.name
        spaces.append(s)
    n = r.randrange(3, 12)
    # forward declarations: everything at namespace scope can be named everywhere
    for k in range(n):
        c = Node("C%d" % k, "", "class" if r.random() < .85 else "enum")
        c.parent = r.choice(spaces) if spaces and r.random() < .45 else None
        c.cpp = (c.parent.cpp + "::" if c.parent else "") + c.name
        top.append(c)
        nodes.append(c)

    def opened(s, text):
        while s is not None:
            text = "namespace %s%s { %s }" % (s.name, " GENPYBIND(module)" if s.kind == "module" else "", text)
            s = s.parent
        return text
    for c in top:
        h.add(opened(c.parent, "struct GENPYBIND(visible) %s;" % c.name if c.kind == "class" else "enum class GENPYBIND(visible) %s : int;" % c.name))
    order = list(top)
    r.shuffle(order)
    done, aliases = [], []
    p_move = r.choice([.1, .3, .6])
    wish = r.choice(["any", "any", "forward"])

    def movable():
        """Targets for expose_here: forward declared ones or complete nested ones."""
        return [t for t in top + [d for d in done if d not in top] if t.moved is None]

    def scope_chain(x):
        """Python parents, following the relocations."""
        out = []
        while x is not None and x not in out:
            out.append(x)
            x = x.moved[0] if x.moved is not None else x.parent
        return out

    def depends(x):
        p = x.moved[0] if x.moved is not None else x.parent
        while p is not None and p.kind == "space":
            p = p.parent
        return ([p] if p is not None else []) + list(x.bases)

    def cyclic():
        state = {}

        def visit(x):
            if state.get(x) == 1:
                return True
            if state.get(x) == 2:
                return False
            state[x] = 1
            if any(visit(d) for d in depends(x)):
                return True
            state[x] = 2
            return False
        return any(visit(x) for x in list(nodes))

    def maybe_alias(where, indent):
        if r.random() >= p_move:
            return
        ts = movable()
        if not ts:
            return
        t = r.choice(ts)
        name = "R%d" % len(aliases)
        t.moved = (where, name)
        if (wish == "forward" or cyclic_ok[0] == 0) and cyclic():
            t.moved = None
            return
        aliases.append(t)
        return indent + r.choice(["using %s GENPYBIND(expose_here) = ::%s;", "typedef ::%s %s GENPYBIND(expose_here);"][:1]) % (name, t.cpp)
    cyclic_ok = [1 if r.random() < .4 else 0]

    def body(c, depth):
        out = []
        for _ in range(r.choice([0, 0, 1, 2] if depth < 3 else [0])):
            k = r.random()
            if k < .45:
                e = Node("N%d" % len(nodes), "", "class")
                e.parent, e.cpp = c, c.cpp + "::N%d" % len(nodes)
                nodes.append(e)
                base = pick_base(e)
                out.append("  " * depth + "struct GENPYBIND(visible) %s%s {" % (e.name, base))
                out += body(e, depth + 1)
                out.append("  " * depth + "};")
                done.append(e)
            elif k < .6:
                e = Node("N%d" % len(nodes), "", "enum")
                e.parent, e.cpp = c, c.cpp + "::N%d" % len(nodes)
                nodes.append(e)
                out.append("  " * depth + "enum class GENPYBIND(visible) %s { a, b };" % e.name)
                done.append(e)
            else:
                a = maybe_alias(c, "  " * depth)
                if a:
                    out.append(a)
        a = maybe_alias(c, "  " * depth)
        if a:
            out.append(a)
        if r.random() < .3 and done:
            t = r.choice(done)
            out.append("  " * depth + "void f%d(const ::%s &) {}" % (len(h.text) * 100 + len(out), t.cpp) if t.kind == "class" and public_path(t) else "")
        return out

    def public_path(t):
        return True

    def pick_base(e):
        cands = [d for d in done if d.kind == "class" and e not in scope_only(d)]
        if not cands or r.random() < .45:
            return ""
        r.shuffle(cands)
        bs = []
        for b in cands[:r.choice([1, 1, 1, 2])]:
            # no diamonds, a base only once
            if any(set(all_bases(b)) & set(all_bases(o)) for o in bs):
                continue
            bs.append(b)
        e.bases = bs
        if (wish == "forward" or not cyclic_ok[0]) and cyclic():
            e.bases = []
            return ""
        return " : " + ", ".join("public ::" + b.cpp for b in bs)

    def all_bases(b):
        out = [b]
        for x in b.bases:
            out += all_bases(x)
        return out

    def scope_only(d):
        out = []
        while d is not None:
            out.append(d)
            d = d.parent
        return out
    for c in order:
        if c.kind == "enum":
            h.add(opened(c.parent, "enum class %s : int { a, b };" % c.name))
            done.append(c)
            continue
        base = pick_base(c)
        lines = ["struct %s%s {" % (c.name, base)] + body(c, 1) + ["};"]
        h.add(opened(c.parent, "\n".join(lines)))
        done.append(c)
        if r.random() < .5:
            s = r.choice(spaces + [None])
            a = maybe_alias(s, "")
            if a:
                h.add(opened(s, a))
    feats = ["relocated" if aliases else "plain", "bases" if any(x.bases for x in nodes) else "no bases"]
    if cyclic():
        return Case("graph/%d" % i, h.header(), expect="error", features=feats + ["cycle"])

    def path(x):
        p, name = (x.moved[0], x.moved[1]) if x.moved is not None else (x.parent, x.name)
        while p is not None and p.kind == "space":
            p = p.parent
        return (path(p) + "." if p is not None else "") + name

    def pyname(x):
        """__qualname__ of a class: the chain of classes."""
        p, name = (x.moved[0], x.moved[1]) if x.moved is not None else (x.parent, x.name)
        while p is not None and p.kind == "space":
            p = p.parent
        return (pyname(p) + "." if p is not None and p.kind == "class" else "") + name
    want = {}
    for x in nodes:
        want[path(x)] = [pyname(b) for b in x.bases]
    h.probe("shape(%r)" % sorted(want), want)
    return h.case("graph/%d" % i, features=feats, n_out=r.choice([1, 1, 2, 3]))


# -- names -------------------------------------------------------------------
NAMES = ["context", "root", "parent", "pybind11", "std", "genpybind", "module", "module_", "self", "cls", "arg", "init", "type", "class_", "object", "lhs", "rhs", "value", "detail", "name", "kwargs",
         "args", "def", "None", "True", "False", "lambda", "in", "is", "pass", "yield", "async", "await", "from", "import", "_", "_x", "Type", "T", "move", "string", "vector", "overload_cast", "const_", "is_operator",
         "return_value_policy", "context_", "context_X", "expose", "expose_", "m", "handle", "str", "dict", "list", "tuple", "print", "len", "property", "static_", "func", "fn", "keep_alive",
         "implicitly_convertible", "getObjectForType", "holder", "inline_", "Context", "genpybind_", "py", "PyObject_", "operators", "x", "noconvert", "required", "visible", "hidden", "postamble", "doc",
         "remove_reference_t", "decay", "result", "it", "e", "i", "a", "ö", "naïve", "名前", "x_1", "x__1", "aB", "Ab", "nonlocal", "except", "with", "global", "raise", "del", "elif", "finally"]
BAD = {  # not possible, see DESIGN.md
    "global_type": {"std", "pybind11", "genpybind"},
    "global_space": {"std", "pybind11", "genpybind"},
    "global_function": {"std", "pybind11", "genpybind"},
    "global_variable": {"std", "pybind11", "genpybind"},
}
DUNDER = set()


def names_case(rng, i):
    r = rng
    h = H(r, ["<string>", "<vector>"])
    h.setup.append(SETUP + "\ndef has(path):\n    o = m\n    for p in path:\n        o = getattr(o, p)\n    return True\n")
    names = list(NAMES)
    r.shuffle(names)
    k = r.randrange(8)
    g = "GENPYBIND(visible)"
    for n in names[:r.randrange(4, 14)]:
        u = h.id("Z")
        form = r.randrange(12)
        glob = n not in BAD["global_type"]
        if n in {0: ("a", "x", "e"), 1: (), 3: ("a",), 4: ("x",), 7: ("other",)}.get(form, ()):
            continue   # (not the declared construct)
        if form == 0 and glob:
            h.add("struct %s %s { int v = 1; %s() {} %s(int a, const %s &b) {} int %s_(int %s) const { return v; } struct %s In {}; };" % (g, n, n, n, n, "q", n, g))
            h.probe("has(%r)" % [n, "In"], True)
        elif form == 1 and glob:
            h.add("namespace %s GENPYBIND(module) { struct %s %s { int v; }; inline int f(int %s) %s { return 1; } }" % (n, g, u, n, g))
            h.probe("has(%r)" % [n, u], True)
        elif form == 2 and glob:
            h.add("inline int %s(int %s, int second) %s { return 1; }" % (n, n, g))
            h.probe("m.__getattribute__(%r)(1, 2)" % n, 1)
        elif form == 3 and glob:
            h.add("enum class %s %s { a, b, %s };" % (g, n, "c"))
            h.probe("has(%r)" % [n, "c"], True)
        elif form == 4:
            h.add("namespace %s GENPYBIND(module) { struct %s %s { %s(int) {} int x = 1; }; inline void take(%s %s, const %s &b = %s(1)) %s {} }" % (u, g, n, n, n, "p", n, n, g))
            h.probe("has(%r)" % [u, n, "x"], True)
        elif form == 5:
            h.add("struct %s %s { int %s(int %s) const { return %s; } static int st(int %s) { return 2; } };" % (g, u, n, n, n, n))
            h.probe("getattr(m.%s(), %r)(7)" % (u, n), 7)
        elif form == 6:
            h.add("struct %s %s { int %s = 5; };" % (g, u, n))
            h.probe("getattr(m.%s(), %r)" % (u, n), 5)
        elif form == 7:
            h.add("enum class %s %s { %s = 3, other };" % (g, u, n))
            h.probe("int(getattr(m.%s, %r))" % (u, n), 3)
        elif form == 8:
            h.add("struct %s %s { struct %s %s { struct %s %s_ { int q; }; }; };" % (g, u, g, n, g, n))
            h.probe("has(%r)" % [u, n, n + "_"], True)
        elif form == 9:
            h.add("namespace %s GENPYBIND(module) { namespace %s GENPYBIND(module) { struct %s S { std::string s() const { return {}; } }; inline ::std::string f(const S &, ::std::vector<int> * = nullptr) %s { return {}; } } }" % (u, n, g, g)
                  if n != "std" else "")
            if n != "std":
                h.probe("has(%r)" % [u, n, "S"], True)
        elif form == 10:
            h.add("struct %s %s_t {}; namespace %s GENPYBIND(module) { using %s GENPYBIND(visible) = ::%s_t; }" % (g, u, u, n, u))
            h.probe("has(%r)" % [u, n], True)
        else:
            h.add("template <typename %s> struct %s %s { %s v; }; template struct %s<int>;" % (n, g, u, n, u))
            h.probe("has(%r)" % [u + "_int_", "v"], True)
        h.feature("name %s as %d" % (n, form))
    return h.case("names/%d" % i, n_out=r.choice([1, 1, 2]))


# -- scopes that are not spelled like other scopes -------------------------------
def scopes_case(rng, i):
    """The usual entities within chains of named, inline and anonymous namespaces and linkage specifications."""
    r = rng
    h = H(rng)
    anonymous = False
    for _ in range(5):
        depth = r.randrange(1, 5)
        open_, close, py, annotated, spec = [], [], "m", False, False
        k = h.id("s")
        for d in range(depth):
            kind = r.choice(["named", "named", "inline", "anonymous", "linkage", "module"])
            if kind in ("linkage", "anonymous") and open_:
                kind = "inline"    # (known finding C08-extern-cxx-nested)
            n = "%s%s%d" % (r.choice("nxy"), k, d)
            vis = "visible" if not annotated and r.random() < .6 or kind == "anonymous" else ""    # (reopened with the same annotations)
            annotated = annotated or bool(vis)
            a = "GENPYBIND(visible) " if vis else ""
            if kind == "named":
                open_.append("namespace %s %s{" % (n, a))
            elif kind == "inline":
                open_.append("inline namespace %s %s{" % (n, a))
            elif kind == "anonymous":
                open_.append("namespace %s{" % a)
            elif kind == "module":
                open_.append("namespace %s GENPYBIND(module%s) {" % (n, ", visible" if vis else ""))
                py += "." + n
            else:
                annotated = annotated and not vis
                open_.append('extern "C++" {')
            h.feature("scope/" + kind)
        a = "" if annotated else "GENPYBIND(visible) "
        c = h.id("C")
        hidden = open_[0] == "namespace GENPYBIND(visible) {"    # (functions of the same name in the enclosing scope cannot be told apart)
        anonymous = anonymous or hidden
        h.add(" ".join(open_),
              "struct {a}{c} {{ int v; {c}(int v_ = 2) : v(v_) {{}} enum class En {{ ea = 3 }}; struct In {{ int k = 6; enum Pl {{ pa = 8 }}; int get(En e = En::ea, Pl p = pa) const {{ return k + (int)e + (int)p; }} }};"
              " static int sf({c} o = {c}(4), In::Pl p = In::pa) {{ return o.v + (int)p; }} int operator+(const {c} &o) const {{ return v * 10 + o.v; }} inline static int sv = 12; }};".format(a=a, c=c),
              "{a}inline int f{c}({c} o = {c}(8), const {c}::In &i = {{}}, {c}::En e = {c}::En::ea) {{ return o.v + i.k + (int)e; }}".format(a=a, c=c),
              "{a}inline int v{c} = 12;".format(a=a, c=c),
              "" if hidden else "{a}inline int operator-({c} x, int y) {{ return x.v - y; }}".format(a=a, c=c),
              "enum {a}E{c} {{ e1{c}, e2{c} = 7 }};".format(a=a, c=c),
              "template <typename T> struct {a}T{c} {{ T x{{}}; static int size(const T &t = T{{}}) {{ return sizeof(t) + t.v; }} }}; template struct T{c}<{c}>;".format(a=a, c=c),
              "struct {a}D{c} : {c} {{ using {c}::{c}; int own(const {c} &o = {c}()) const {{ return v + o.v; }} }};".format(a=a, c=c),
              "struct Base{c} {{ int hb = 14; }}; struct GENPYBIND(visible, inline_base(Base{c})) L{c} : Base{c} {{}};".format(c=c),
              "}" * len(open_))
        q = py + "."
        h.probe("[{q}{c}(3) + {q}{c}(5), {q}{c}.sf(), {q}{c}.sv, {q}{c}.In().get(), {q}f{c}(), {q}v{c}, %s, int({q}e2{c}), int({q}E{c}.e1{c})]".replace("%s", "5" if hidden else "{q}{c}(9) - 4").format(q=q, c=c), [35, 12, 12, 17, 17, 12, 5, 7, 0])
        h.probe("[{q}D{c}.__bases__[0] is {q}{c}, {q}D{c}(5).own(), {q}L{c}().hb]".format(q=q, c=c), [True, 7, 14])
        h.probe("[{q[0]}(x).x.v if False else {q[0]}.size() for x in (1,)]".format(q=["[getattr(%s, k) for k in dir(%s) if k.startswith('T%s')][0]" % (py, py, c)]), [6])
        h.feature("scopes")
    return h.case("scopes/%d" % i, n_out=1 if anonymous else r.choice([1, 1, 2, 3]))


# -- programs of the other checks in other configurations ----------------------
def borrowed(rng, count, plain=False):
    import importlib
    out = []
    mods = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c09", "c10", "c19", "c21", "c24"]
    rng.shuffle(mods)
    pool = {}
    for k in range(count):
        name = mods[k % len(mods)]
        if name not in pool:
            pool[name] = [t for t in importlib.import_module("vf.checks." + name).tasks(rng, "quick")
                          if isinstance(t, Case) and t.expect == "ok" and not t.import_first and not t.known and not t.cc and "pybind11" not in t.header and not t.tool_args]
            rng.shuffle(pool[name])
            pool[name].sort(key=lambda t: not t.name.startswith("world/"))      # popped from the end
        c = pool[name].pop()
        if not pool[name]:
            del pool[name]
        if plain:
            out.append(Case("borrowed/%s/%d" % (name, k), c.header, [("m.__name__", c.module or "m")], module=c.module, files=c.files, n_out=rng.choice([1, 1, 2]),
                            main_name=c.main_name, features=["borrowed " + name]))
            continue
        std = rng.choice(["c++20", "gnu++20", "c++23"])
        cc = rng.choice([["-DVF_NO_PCH"], ["-fvisibility=hidden"], ["-O1"], ["-DNDEBUG", "-g1"], ["-fno-rtti"][:0] + ["-D_GLIBCXX_ASSERTIONS"], ["-funsigned-char"]])
        if "<vector>" in c.header or "<map>" in c.header or "<optional>" in c.header:
            # (their conversions are up to the user)
            cc = cc + ["-include", "pybind11/stl.h"]
        b = Case("borrowed/%s/%d" % (name, k), c.header, [("m.__name__", c.module or "m")], module=c.module, files=c.files, cc=cc, std=std, n_out=rng.choice([1, 1, 2]),
                 main_name=c.main_name, features=["borrowed " + name, std] + cc)
        if rng.random() < .4 and "-fvisibility=hidden" not in cc:
            b.compiler = "g++"
            b.features.append("g++")
        out.append(b)
    return out


KNOWN = [
    Case("known/pack-arguments", PRE + """namespace n { struct U {}; template <typename... T> struct GENPYBIND(visible) P {}; template struct P<U>; }
""", [("hasattr(m, 'P_U_')", True)], known="C08-pack-arguments"),
    Case("known/extern-cxx-nested", PRE + """namespace n { extern "C++" { struct GENPYBIND(visible) O { struct GENPYBIND(visible) I {}; }; } }
""", [("hasattr(m.O, 'I')", True)], known="C08-extern-cxx-nested"),
    Case("known/protected-using", PRE + """struct GENPYBIND(visible) B { protected: int p = 3; };
struct GENPYBIND(visible) D : B { using B::p; };
""", [("m.D().p", 3)], known="C08-protected-using"),
]


def tasks(rng, tier):
    q = tier == "quick"
    out = [graph_case(rng, i) for i in range(110 if q else 2500)]
    out += [names_case(rng, i) for i in range(24 if q else 500)]
    out += [scopes_case(rng, i) for i in range(12 if q else 400)]
    out += borrowed(rng, 18 if q else 600)
    out += borrowed(rng, 60 if q else 3000, True)
    return out + KNOWN
