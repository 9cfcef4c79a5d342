"""Exactly the requested template instantiations are exposed, fully instantiated."""
import re

from ..engine import Case, Exc
from ..gen import PRE, batch

RULE = ("random class and function templates (type, value, enum, pack, template and default parameters, partial and "
        "explicit specializations, nested templates, recursive aliases) with random explicit, extern, aliased, implicit "
        "and incomplete instantiations; the attributes derived from every template are compared with the model, and all "
        "members of each instantiation are called and compared with values computed for its arguments; a case is "
        "distinct by header text and non-trivial if imported and compared")

# (C++ type, text in the fallback name, size, exact integer type, Python type)
TYPES = [("int", "int", 4, "int"), ("long", "long", 8, "int"), ("short", "short", 2, "int"), ("double", "double", 8, "float"),
         ("float", "float", 4, "float"), ("unsigned int", "unsigned int", 4, "int"), ("unsigned long long", "unsigned long long", 8, "int"),
         ("unsigned short", "unsigned short", 2, "int"), ("long long", "long long", 8, "int")]
# types that are only measured
ANY = TYPES + [("bool", "bool", 1, ""), ("char", "char", 1, ""), ("vs::X", "vs::X", 4, ""), ("vs::Box<int>", "vs::Box<int>", 4, ""),
               ("vs::Box<vs::Box<double>>", "vs::Box<vs::Box<double>>", 8, ""), ("const short *", "const short *", 8, ""),
               ("vs::Pair<int, char>", "vs::Pair<int, char>", 8, ""), ("vs::in::Y", "vs::in::Y", 2, ""), ("vs::E", "vs::E", 4, "")]
SUPPORT = '''namespace vs { struct X { int q = 1; }; enum class E { a = 3, b = 7 }; template <typename T> struct Box { T t{}; };
template <typename T, typename U> struct Pair { T t; U u; }; namespace in { struct Y { short s; }; } }'''


def ident(text):
    """Other characters (runs of them) replaced by underscores."""
    return re.sub(r"[^A-Za-z0-9_]+", "_", text)


def fallback(name, args):
    return ident("%s<%s>" % (name, ", ".join(args)))


def support(h):
    if SUPPORT not in h.text:
        h.text.insert(0, SUPPORT)


def only(h, prefix, names, scope="m"):
    """The attributes of scope that start with prefix."""
    o = "vars(m)" if scope == "m" else "getattr(getattr(m, %r, None), '__dict__', {})" % scope[2:]
    h.probe("sorted(k for k in %s if k.startswith(%r))" % (o, prefix + "_"), sorted(names))


class Inst:
    """Instantiations of one template and how they are requested."""

    def __init__(self, h, name, qual, scope, visible, default=False, kw="struct"):
        self.default = default and not visible
        visible = visible or default
        self.h, self.name, self.qual, self.scope, self.visible, self.kw = h, name, qual, scope, visible, kw
        self.names = []       # attributes named after the template in its scope
        self.lines, self.late = [], []
        self.used = set()

    def request(self, args, texts):
        """Returns the Python path of the instantiation, or None."""
        h, r = self.h, self.h.rng
        fb = fallback(self.name, texts)
        if fb in self.used:
            return None
        self.used.add(fb)
        t = "%s::%s<%s>" % (self.qual, self.name, ", ".join(args)) if self.qual else "%s<%s>" % (self.name, ", ".join(args))
        how = r.choice(["explicit", "explicit", "extern", "as", "visible", "here", "here-class", "here-module", "encourage",
                        "encourage-class", "implicit", "pointer", "alias", "none", "both"])
        h.feature(("visible:" if self.visible else "hidden:") + how)
        own = self.scope + "." + fb
        if how == "extern" and self.default:
            how = "both"     # known finding C21-extern-enum
        if how in ("explicit", "extern", "both"):
            if how != "explicit":
                self.lines.append("extern template %s %s;" % (self.kw, t))
            if how == "extern":
                # what users have in a source file, at the very end of the header
                self.late.append("#ifndef __GENPYBIND__\ntemplate %s %s;\n#endif" % (self.kw, t))
            else:
                self.lines.append("template %s %s;" % (self.kw, t))
            if not self.visible:
                return None
            self.names.append(fb)
            return own
        if how == "as":
            n = h.id(self.name + "_as")
            self.lines.append("%stemplate %s GENPYBIND(%s) %s;" % (r.choice(["", "", "extern "]), self.kw, r.choice(
                ["expose_as(%s)", 'expose_as("%s")', "visible, expose_as(%s)"]) % n, t))
            if self.lines[-1].startswith("extern"):
                self.lines.append("template %s %s;" % (self.kw, t))
            self.names.append(n)
            return self.scope + "." + n
        if how == "visible":
            self.lines.append("template %s GENPYBIND(visible) %s;" % (self.kw, t))
            self.names.append(fb)
            return own
        if how.startswith("here"):
            a = h.id("al")
            n = a if r.random() < .6 else h.id("Al")
            al = r.choice(["using %s %s = %s;", "typedef %3$s %1$s %2$s;"])
            ann = "GENPYBIND(expose_here%s)" % ("" if n == a else ", expose_as(%s)" % n)
            al = "using %s %s = %s;" % (a, ann, t) if r.random() < .6 else "typedef %s %s %s;" % (t, a, ann)
            s = h.id("Sc")
            self.lines.append({"here": "%s", "here-class": "struct GENPYBIND(visible) " + s + " { %s };",
                               "here-module": "namespace " + s + " GENPYBIND(module) { %s }"}[how] % al)
            return "m.%s%s" % ("" if how == "here" else s + ".", n)
        if how.startswith("encourage"):
            a, s = h.id("al"), h.id("Sc")
            al = "using %s GENPYBIND(encourage) = %s;" % (a, t)
            self.lines.append(al if how == "encourage" else "struct GENPYBIND(visible) %s { %s };" % (s, al))
            h.probe("m.%s%s is %s" % ("" if how == "encourage" else s + ".", a, own), True)
            self.names.append(fb)
            return own
        if how == "implicit" and self.default:
            return None      # the header decides how much of it is instantiated
        if how == "implicit":
            self.lines.append("inline int %s() { return sizeof(%s); }" % (h.id("uses"), t))
            if not self.visible:
                return None
            self.names.append(fb)
            return own
        if how == "pointer":
            self.lines.append(r.choice(["inline %s *%s = nullptr;", "extern %s %s;", "inline void %s_(%s *);"][:1]) % (t, h.id("ptr")))
            return None
        if how == "alias":
            a = h.id("al")
            self.lines.append("using %s = %s;" % (a, t))
            return None
        return None

    def done(self):
        self.h.add(*self.lines)
        self.h.add(*self.late)
        only(self.h, self.name, self.names, self.scope)


def scopes(h):
    """A place for a template: (opening, closing, qualifier, python scope, visible by default)"""
    r = h.rng
    n = h.id("sc")
    return r.choice([("", "", "", "m", False), ("", "", "", "m", False),
                     ("namespace %s {" % n, "}", "::" + n, "m", False),
                     ("namespace %s GENPYBIND(module) {" % n, "}", "::" + n, "m." + n, False),
                     ("namespace %s GENPYBIND(visible, module) {" % n, "}", "::" + n, "m." + n, True),
                     ("struct GENPYBIND(visible) %s {" % n, "};", "::" + n, "m." + n, True)])


def values(h):
    """A type and a value parameter; every kind of member."""
    support(h)
    r, c = h.rng, h.id("Va")
    op, cl, q, scope, default = scopes(h)
    ann = r.random() < .5
    n0 = r.randrange(1, 9)
    has_default = r.random() < .5
    nested_hidden = r.random() < .3
    alias_in = r.random() < .5
    deco = "GENPYBIND(visible)" if ann else ""
    h.add(op, "template <typename T, int N%s> struct %s %s {" % (" = %d" % n0 if has_default else "", deco, c),
          "T v = T(N); %s() {} explicit %s(T t) : v(t) {}" % (c, c),
          "T val() const { return v + T(N); }",
          "static int stat(int d = N, int e = int(sizeof(T)) * 2) { return d * 100 + e; }",
          "int outer(int d = N + 1) const;",
          "enum En { e0 = N, e1 }; enum class Es { s0 = sizeof(T) };",
          "struct In { T w = T(N); int sz(int k = sizeof(T)) { return k; } %s };" % ("struct GENPYBIND(hidden) No {};" if nested_hidden else ""),
          "%s operator+(const %s &o) const { return %s(v + o.v); }" % (c, c, c),
          "friend bool operator==(const %s &a, const %s &b) { return a.v == b.v; }" % (c, c),
          "GENPYBIND(getter_for(prop)) T get_it() const { return v; } GENPYBIND(setter_for(prop)) void set_it(T t) { v = t; }",
          "static constexpr int k = sizeof(T) + N; const int arr = N * 2;",
          "%s *self() { return this; } In mk() const { return {}; } T of(const In &i) const { return i.w; }" % c,
          "GENPYBIND(hidden) int no() { return 0; }",
          "private: int priv = N; int pm() { return 1; }", "};",
          "template <typename T, int N> int %s<T, N>::outer(int d) const { return d + 5; }" % c if not cl.endswith(";") else "", cl)
    if cl.endswith(";"):
        h.add("template <typename T, int N> int %s::%s<T, N>::outer(int d) const { return d + 5; }" % (q[2:], c))
    inst = Inst(h, c, q, scope, ann, default)
    for _ in range(r.randrange(1, 5)):
        t, text, size, py = r.choice(TYPES)
        n = r.choice([0, 1, 2, 3, 17, 100, n0])
        args, texts = [t, str(n)], [text, str(n)]
        if has_default and n == n0 and r.random() < .7:
            args = [t]
        p = inst.request(args, texts)
        if p is None:
            continue
        conv = float if py == "float" else int
        h.probe("@a, b = %s(), %s(%s(3))\n_ = [a.v, a.val(), b.v, (a + b).v, a == a, a == b, b.prop, a.arr, a.self() is a, a.mk().w, a.of(%s.In())]" % (p, p, py, p),
                [conv(n), conv(2 * n), conv(3), conv(n + 3), True, n == 3, conv(3), 2 * n, True, conv(n), conv(n)])
        h.probe("[%s.stat(), %s.stat(4), %s.stat(e=1), %s().outer(), %s().outer(d=0)]" % (p, p, p, p, p),
                [n * 100 + 2 * size, 400 + 2 * size, n * 100 + 1, n + 6, 5])
        h.probe("[int(%s.e0), int(%s.En.e1), int(%s.Es.s0), %s.k, %s.In().w, %s.In().sz()]" % (p, p, p, p, p, p),
                [n, n + 1, size, size + n, conv(n), size])
        h.probe("@a = %s()\na.prop = %s(9)\n_ = [a.v, type(a.v).__name__]" % (p, py), [conv(9), py])
        h.probe("sorted(k for k in vars(%s) if k[0] != '_')" % p,
                sorted(["v", "val", "stat", "outer", "En", "Es", "e0", "e1", "In", "prop", "k", "arr", "self", "mk", "of"]))
        h.probe("sorted(k for k in vars(%s.In) if k[0] != '_')" % p, ["sz", "w"])
        if py == "int" and (size < 8 or "unsigned" in t):
            h.probe("%s(2 ** 70)" % p, Exc("TypeError"))
    inst.done()


def measured(h):
    """Arbitrary type arguments; the name is made of them."""
    support(h)
    r, c = h.rng, h.id("Me")
    op, cl, q, scope, default = scopes(h)
    ann = r.random() < .6
    h.add(op, "template <typename T> %s %s %s { %s static int f() { return sizeof(T); } };" % (
        "struct", "GENPYBIND(visible)" if ann else "", c, ""), cl)
    inst = Inst(h, c, q, scope, ann, default)
    for t in r.sample(ANY, r.randrange(2, 6)):
        p = inst.request([t[0]], [t[1]])
        if p is not None:
            h.probe("%s.f()" % p, t[2])
    inst.done()


def value_kinds(h):
    """Values of other types as arguments."""
    support(h)
    r, c = h.rng, h.id("Vk")
    kind = r.choice(["bool", "enum", "auto", "neg", "char"])
    head, pool = {
        "bool": ("bool V", [("true", "true", 1), ("false", "false", 0)]),
        "enum": ("vs::E V", [("vs::E::a", "vs::E::a", 3), ("vs::E::b", "vs::E::b", 7)]),
        "auto": ("auto V", [("3", "3", 3), ("true", "true", 1), ("-8", "-8", -8), ("vs::E::b", "vs::E::b", 7)]),
        "neg": ("int V", [("-1", "-1", -1), ("-2", "-2", -2), ("40", "40", 40), ("1 + 2", "3", 3)]),
        "char": ("int V, bool W", [("1, true", "1, true", 1), ("1, false", "1, false", 1), ("(3 > 2), true", None, 0)][:2])}[kind]
    vis = r.random() < .7
    h.add("template <%s> struct %s %s { static long f(long d = (long)V) { return d; } };" % (head, "GENPYBIND(visible)" if vis else "", c))
    inst = Inst(h, c, "", "m", vis)
    for a, text, v in pool:
        p = inst.request([a], [text])
        if p is not None:
            h.probe("[%s.f(), %s.f(2)]" % (p, p), [v, 2])
    inst.done()


def packs(h):
    support(h)
    r, c = h.rng, h.id("Pk")
    vis = r.random() < .7
    h.add("template <typename... T> struct %s %s { static int n() { return sizeof...(T); } static int s() { return (0 + ... + (int)sizeof(T)); } };" % (
        "GENPYBIND(visible)" if vis else "", c))
    inst = Inst(h, c, "", "m", vis)
    for k in r.sample(range(5), 3):
        ts = [r.choice([t for t in ANY if "vs::" not in t[0]]) for _ in range(k)]    # known finding C08-pack-arguments
        p = inst.request([", ".join(t[0] for t in ts)], [", ".join(t[1] for t in ts)])
        if p is not None:
            h.probe("[%s.n(), %s.s()]" % (p, p), [k, sum(t[2] for t in ts)])
    inst.done()


def templates_as_arguments(h):
    support(h)
    r, c = h.rng, h.id("Tt")
    vis = r.random() < .7
    h.add("template <template <typename> class C, typename T> struct %s %s { static int f() { return sizeof(C<T>); } C<T> *no_ = nullptr; };".replace(
        " C<T> *no_ = nullptr;", "") % ("GENPYBIND(visible)" if vis else "", c))
    inst = Inst(h, c, "", "m", vis)
    for t in r.sample(ANY, 2):
        p = inst.request(["vs::Box", t[0]], ["vs::Box", t[1]])
        if p is not None:
            h.probe("%s.f()" % p, t[2])
    inst.done()


def specializations(h):
    """Partial and explicit specializations decide for themselves."""
    support(h)
    r, c = h.rng, h.id("Sp")
    names = []
    h.add("template <typename T> struct GENPYBIND(visible) %s { static int f() { return 1; } int prim = 1; };" % c)
    if r.random() < .7:
        vis = r.random() < .6
        h.add("template <typename T> struct %s %s<T *> { static int g() { return 2 + sizeof(T); } };" % ("GENPYBIND(visible)" if vis else "", c),
              "template struct %s<long *>;" % c)
        if vis:
            names.append(c + "_long_")
            h.probe("[m.%s_long_.g(), hasattr(m.%s_long_, 'f')]" % (c, c), [10, False])
    if r.random() < .7:
        n = h.id(c + "_as")
        ann, nm = r.choice([("GENPYBIND(visible)", c + "_char_"), ("GENPYBIND(expose_as(%s))" % n, n), ("", None)])
        h.add("template <> struct %s %s<char> { static int h(int k = 6) { return k; } struct Own { int w = 4; }; };" % (ann, c))
        if nm:
            names.append(nm)
            h.probe("[m.%s.h(), m.%s.Own().w, hasattr(m.%s, 'f')]" % (nm, nm, nm), [6, 4, False])
    if r.random() < .7:
        h.add("template <> inline int %s<float>::f() { return 9; }" % c, "template struct %s<float>;" % c)
        names.append(c + "_float_")
        h.probe("[m.%s_float_.f(), m.%s_float_().prim]" % (c, c), [9, 1])
    h.add("template struct %s<int>;" % c)
    names.append(c + "_int_")
    h.probe("[m.%s_int_.f(), m.%s_int_().prim]" % (c, c), [1, 1])
    only(h, c, names)


def nested(h):
    """Templates nested in templates and classes."""
    support(h)
    r, c = h.rng, h.id("Ou")
    inner_vis = r.choice(["", "GENPYBIND(visible)"])
    h.add("template <typename T> struct GENPYBIND(visible) %s {" % c,
          "template <typename U> struct %s Inn { static int f() { return sizeof(T) * 10 + sizeof(U); } T t = T(3); U u = U(4); };" % inner_vis,
          "template <typename U> struct GENPYBIND(hidden) Hid { U u; };",
          "struct Plain { T p = T(7); }; };")
    outer, names = {}, []
    for t in r.sample(TYPES, r.randrange(1, 4)):
        outer[t[1]] = (t, [])
        fb = ident("%s<%s>" % (c, t[1]))
        names.append(fb)
        if r.random() < .7:
            h.add("template struct %s<%s>;" % (c, t[0]))
            explicit = True
        else:
            explicit = False
        for u in r.sample(TYPES, r.randrange(0 if explicit else 1, 3)):
            h.add("template struct %s<%s>::template Inn<%s>;" % (c, t[0], u[0]) if r.random() < .3 else "template struct %s<%s>::Inn<%s>;" % (c, t[0], u[0]))
            p = "m.%s.%s" % (fb, ident("Inn<%s>" % u[1]))
            outer[t[1]][1].append(p.split(".")[-1])
            h.probe("[%s.f(), %s().t, %s().u]" % (p, p, p), [t[2] * 10 + u[2], (float if t[3] == "float" else int)(3), (float if u[3] == "float" else int)(4)])
        if r.random() < .3:
            h.add("template struct %s<%s>::Hid<int>;" % (c, t[0]))
        h.probe("sorted(k for k in vars(m.%s) if k[0] != '_')" % fb, sorted(["Plain"] + outer[t[1]][1]))
        h.probe("m.%s.Plain().p" % fb, (float if t[3] == "float" else int)(7))
    only(h, c, names)


def chain(h):
    """Aliases in templates request further instantiations, recursively."""
    support(h)
    r, c = h.rng, h.id("Ch")
    n = r.randrange(1, 7)
    how = r.choice(["expose_here", "encourage", "other"])
    if how == "expose_here":
        h.add("template <int N> struct %s { using Down GENPYBIND(expose_here) = %s<N - 1>; static int n(int d = N) { return d; } };" % (c, c),
              "template <> struct %s<0> { static int n() { return 0; } };" % c, "using top_%s GENPYBIND(expose_here) = %s<%d>;" % (c, c, n))
        for k in range(n + 1):
            h.probe("m.top_%s%s.n()" % (c, ".Down" * k), n - k)
        h.probe("hasattr(m.top_%s%s, 'Down')" % (c, ".Down" * n), False)
        only(h, c, [])
    elif how == "encourage":
        h.add("template <int N> struct GENPYBIND(visible) %s { using Down GENPYBIND(encourage) = %s<N - 1>; static int n(int d = N) { return d; } };" % (c, c),
              "template <> struct GENPYBIND(visible) %s<0> { static int n() { return 0; } };" % c, "template struct %s<%d>;" % (c, n))
        for k in range(n + 1):
            h.probe("[m.%s_%d_.n(), m.%s_%d_%s is m.%s_%d_]" % (c, k, c, n, ".Down" * (n - k), c, k), [k, True])
        only(h, c, ["%s_%d_" % (c, k) for k in range(n + 1)])
    else:
        d = h.id("Oth")
        h.add("template <typename T> struct %s { T o = T(6); enum E { z = sizeof(T) }; };" % d,
              "template <typename T> struct GENPYBIND(visible) %s { using Rel GENPYBIND(encourage) = %s<T>; using Here GENPYBIND(expose_here) = vs::Pair<T, %s<T>>; };" % (c, d, c))
        names, dn = [], []
        for t in r.sample(TYPES, r.randrange(1, 4)):
            h.add("template struct %s<%s>;" % (c, t[0]))
            names.append(ident("%s<%s>" % (c, t[1])))
            dn.append(ident("%s<%s>" % (d, t[1])))
            h.probe("[m.%s.Rel is m.%s, m.%s().o, int(m.%s.z), m.%s.Here.__name__, sorted(k for k in vars(m.%s.Here) if k[0] != '_')]" % (
                names[-1], dn[-1], dn[-1], dn[-1], names[-1], names[-1]), [True, (float if t[3] == "float" else int)(6), t[2], "Here", ["t", "u"]])
        only(h, c, names)
        only(h, d, dn)


def bases(h):
    """Instantiations as bases, and templates derived from templates."""
    support(h)
    r, b, d, p = h.rng, h.id("Bs"), h.id("De"), h.id("Pl")
    t, u = r.sample(TYPES, 2)
    vis = r.random() < .7
    h.add("template <typename T> struct %s %s { T b = T(4); int fromb(int k = sizeof(T)) const { return k; } };" % ("GENPYBIND(visible)" if vis else "", b),
          "template <typename T> struct GENPYBIND(visible%s) %s : %s<T> { T d = T(5); };" % ("" if vis else ", inline_base", d, b),
          "struct GENPYBIND(visible%s) %s : %s<%s> { int own = 1; };" % ("" if vis else ", inline_base", p, b, t[0]),
          "template struct %s<%s>;" % (d, u[0]))
    dn = ident("%s<%s>" % (d, u[1]))
    cu, ct = (float if u[3] == "float" else int), (float if t[3] == "float" else int)
    h.probe("[m.%s().b, m.%s().d, m.%s().fromb(), m.%s().b, m.%s().fromb(), m.%s().own]" % (dn, dn, dn, p, p, p), [cu(4), cu(5), u[2], ct(4), t[2], 1])
    only(h, b, [ident("%s<%s>" % (b, x[1])) for x in (t, u)] if vis else [])
    if vis:
        h.probe("[issubclass(m.%s, m.%s), issubclass(m.%s, m.%s)]" % (dn, ident("%s<%s>" % (b, u[1])), p, ident("%s<%s>" % (b, t[1]))), [True, True])
    only(h, d, [dn])


def functions(h):
    """Function templates: each instantiation is one overload."""
    r, f = h.rng, h.id("ft")
    cls = r.random() < .4
    vis = r.random() < .7
    kinds = r.sample([("int", "7", 7), ("double", "2.5", 2.5), ("std::string", "'ab'", "ab")], r.randrange(1, 4))
    h.include("<string>")
    ann = "GENPYBIND(visible)" if vis else ("GENPYBIND(hidden)" if cls else "")
    tmpl = "template <typename T> %s %s T %s(T t, int k = sizeof(T))%s { (void)k; return t; }" % (ann, "", f, " const" if cls else "")
    c = "FC_" + f
    h.add("struct GENPYBIND(visible) %s { %s };" % (c, tmpl) if cls else tmpl)
    got = []
    for t, lit, v in kinds:
        h.add("template %s %s%s<%s>(%s, int)%s;" % (t, c + "::" if cls else "", f, t, t, " const" if cls else ""))
        got.append((lit, v))
    renamed = None
    if r.random() < .4:
        renamed = h.id("ren")
        # annotations of the template come last
        if not vis and not cls:
            h.add("template GENPYBIND(expose_as(%s)) bool %s%s<bool>(bool, int)%s;" % (renamed, c + "::" if cls else "", f, " const" if cls else ""))
        else:
            renamed = None
    o = "m.%s()" % c if cls else "m"
    h.probe("hasattr(%s, %r)" % (o, f), vis)
    if vis:
        for lit, v in got:
            h.probe("%s.%s(%s)" % (o, f, lit), v)
            h.probe("%s.%s(t=%s, k=3)" % (o, f, lit), v)
        for lit, v in [("'zz'", str), ("[]", None)]:
            if not any(isinstance(x[1], str) for x in got) or lit == "[]":
                h.probe("%s.%s(%s)" % (o, f, lit), Exc("TypeError"))
        h.probe("(%s.%s.__doc__.count('%s(') - 1) or 1" % (o, f, f), len(got))
    if renamed:
        h.probe("%s.%s(True)" % (o, renamed), True)


def constructors(h):
    r, c = h.rng, h.id("Ct")
    ts = r.sample([("int", "7", 4), ("double", "2.5", 8), ("bool", "True", 1)], r.randrange(0, 3))
    h.add("struct GENPYBIND(visible) %s { template <typename T> explicit %s(T) : n(sizeof(T)) {} %s(int, int) : n(-1) {} int n; };" % (c, c, c))
    for t, lit, n in ts:
        h.add("template %s::%s(%s);" % (c, c, t))
    for t, lit, n in ts:
        if t != "bool" or len(ts) == 1:
            if not (t == "int" and any(x[0] == "bool" for x in ts)):
                h.probe("m.%s(%s).n" % (c, lit), n)
    if not ts:
        h.probe("m.%s(1)" % c, Exc("TypeError"))
    h.probe("m.%s(1, 2).n" % c, -1)


def untouched(h):
    """Templates nobody instantiates contribute nothing, however annotated."""
    r, c = h.rng, h.id("Un")
    h.add("template <typename T> struct GENPYBIND(visible) %s { T t; struct GENPYBIND(visible) %s_In {}; enum GENPYBIND(visible) E { %s_e }; static_assert(sizeof(T) > 1); };" % (c, c, c),
          "template <typename T> GENPYBIND(visible) T %s_fn(T t) { return t; }" % c,
          "template <typename T> using %s_al = %s<T>;" % (c, c) if r.random() < .5 else "",
          "template <typename T> inline T %s_var = T(1);" % c,
          "struct GENPYBIND(visible) H%s { template <typename T> T m(T t) { return t; } template <typename T> struct In { T t; }; };" % c)
    h.probe("[q for q in api(m) if %r in q and not q.startswith('H')]" % c, [])
    h.probe("[k for k in vars(m.H%s) if k[0] != '_']" % c, [])


UNITS = [values, values, values, measured, measured, value_kinds, packs, templates_as_arguments, specializations, nested,
         chain, bases, functions, functions, constructors, untouched]


KNOWN = [Case("known/extern-enum", PRE + """namespace n GENPYBIND(visible) {
template <typename T> struct U { enum class Es { a = sizeof(T) }; };
extern template struct U<int>;
}
#ifndef __GENPYBIND__
template struct n::U<int>;
#endif
""", [("int(m.U_int_.Es.a)", 4)], known="C21-extern-enum"),
         Case("known/forward-specialization", PRE + """template <typename T> struct A { int a = 1; };
template <> struct GENPYBIND(visible) A<int>;
template <> struct A<int> { int b = 2; };
""", [("m.A_int_().b", 2)], known="C21-forward-specialization")]


def tasks(rng, tier):
    return batch(rng, "units", UNITS, 72 if tier == "quick" else 1200, 7) + KNOWN
