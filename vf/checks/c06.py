"""Data members and properties read and write the C++ state, respecting constness."""
from ..engine import Exc, Pred
from ..gen import H

RULE = ("classes with random data members, static members and properties and namespaces with variables; after every read and "
        "attempted write the complete C++ state (all members of two objects, static members, calls of accessors) is compared "
        "with the model; distinct by header text, non-trivial if members were read and written")

WORLD = r'''
enum class GENPYBIND(visible) E { a, b = 5, c };
struct GENPYBIND(visible) P { int v; P(int v_ = 1) : v(v_) {} };
namespace rec {
inline std::string s(bool v) { return v ? "T" : "F"; }
inline std::string s(int v) { return std::to_string(v); }
inline std::string s(unsigned v) { return std::to_string(v); }
inline std::string s(short v) { return std::to_string(v); }
inline std::string s(long long v) { return std::to_string(v); }
inline std::string s(std::uint8_t v) { return std::to_string(v); }
inline std::string s(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string s(float v) { char b[64]; std::snprintf(b, sizeof b, "%.9g", v); return b; }
inline std::string s(const std::string &v) { return "'" + v + "'"; }
inline std::string s(E v) { return "E" + std::to_string(static_cast<int>(v)); }
inline std::string s(const P &v) { return "P" + std::to_string(v.v); }
inline std::string s(const P *v) { return v ? "*" + s(*v) : "null"; }
inline std::string s(const std::vector<int> &v) { std::string r = "["; for (int x : v) r += std::to_string(x) + ","; return r + "]"; }
inline std::string s(const std::optional<int> &v) { return v ? "some" + std::to_string(*v) : "none"; }
}
'''
INC = ["<string>", "<vector>", "<optional>", "<cstdint>", "<cstdio>"]

# type -> values: (C++, Python, text of the record, what Python reads)
VALUES = {
    "int": [("3", "3", "3"), ("-7", "-7", "-7"), ("2147483647", "2147483647", "2147483647")],
    "unsigned": [("4u", "4", "4"), ("4294967295u", "4294967295", "4294967295"), ("0u", "0", "0")],
    "short": [("5", "5", "5"), ("-32768", "-32768", "-32768"), ("9", "9", "9")],
    "long long": [("6", "6", "6"), ("-1099511627776LL", "-1099511627776", "-1099511627776"), ("8", "8", "8")],
    "std::uint8_t": [("7", "7", "7"), ("255", "255", "255"), ("0", "0", "0")],
    "double": [("1.5", "1.5", "1.5"), ("-0.25", "-0.25", "-0.25"), ("1e100", "1e100", "1e+100")],
    "float": [("0.5f", "0.5", "0.5"), ("2.25f", "2.25", "2.25"), ("-8", "-8.0", "-8")],
    "bool": [("true", "True", "T"), ("false", "False", "F"), ("true", "True", "T")],
    "std::string": [('"abc"', "'abc'", "'abc'"), ('""', "''", "''"), ('"h\\xc3\\xa9"', "'h\u00e9'", "'h\u00e9'")],
    "E": [("E::b", "m.E.b", "E5"), ("E::a", "m.E.a", "E0"), ("E::c", "m.E.c", "E6")],
    "P": [("P(3)", "m.P(3)", "P3"), ("P(4)", "m.P(4)", "P4"), ("P(-5)", "m.P(-5)", "P-5")],
    "std::vector<int>": [("{1, 2}", "[1, 2]", "[1,2,]"), ("{}", "[]", "[]"), ("{9}", "[9]", "[9,]")],
    "std::optional<int>": [("std::nullopt", "None", "none"), ("4", "4", "some4"), ("0", "0", "some0")],
}
TYPES = list(VALUES)
SETUP = '''
def rd(x):
    return "P%d" % x.v if type(x).__name__ == "P" else x
def attempt(o, name, value):
    try:
        setattr(o, name, value)
        return "written"
    except Exception as e:
        return type(e).__name__
def look(o, name):
    try:
        return rd(getattr(o, name))
    except Exception as e:
        return "raised " + type(e).__name__
'''


def read(t, v):
    """What `rd` gives for a value."""
    if t == "P":
        return v[2]
    if t in ("double", "float"):
        return float(v[1])
    return eval(v[1], {"m": None}) if t != "E" else None


def want_read(t, v, code):
    """Probe code and expectation for reading `code`."""
    if t == "E":
        return "%s == %s and type(%s) is m.E" % (code, v[1], code), True
    return "rd(%s)" % code, read(t, v)


class Member:
    def __init__(self, name, py, t, val, writable, static, shown=True):
        self.name, self.py, self.t, self.val = name, py, t, val
        self.writable, self.static, self.shown = writable, static, shown
        self.base = val


def klass(h):
    """A class with data members."""
    r = h.rng
    C = h.id("C")
    style = r.choice(["plain", "plain", "template", "nested", "derived", "inlined", "class", "union", "multi"])
    h.feature("style/" + style)
    n = r.randrange(3, 8) if style != "union" else 1
    mem, lines = [], []
    for i in range(n):
        t = r.choice(TYPES if style != "union" else ["int", "unsigned", "short", "long long"])
        v = r.choice(VALUES[t])
        name = h.id("f")
        static = style != "union" and r.random() < .3
        const = style != "union" and r.random() < .2
        hidden = r.random() < .08
        ann, ro, py = [], False, name
        q = r.random()
        if q < .15:
            ann, ro = ["readonly"], True
        elif q < .2:
            ann, ro = ["readonly(true)"], True
        elif q < .27:
            ann = ["readonly(false)"]
        elif q < .3:
            ann, ro = ["readonly(false)", "readonly"], True
        elif q < .33:
            ann = ["readonly", "readonly(false)"]
        if hidden:
            ann.append("hidden")
        elif r.random() < .25:
            py = h.id("Py")
            ann.append("expose_as(%s)" % py)
        elif r.random() < .1:
            ann.append("visible")
        a = "GENPYBIND(%s) " % ", ".join(ann) if ann else ""
        spelled = t
        init = v[0] if v[0].startswith("{") else "{%s}" % v[0]
        if static:
            if const and t not in ("std::string", "std::vector<int>", "P") and r.random() < .5:
                lines.append("%sstatic constexpr %s %s%s;" % (a, spelled, name, init))
            else:
                lines.append("%sinline static %s%s %s%s;" % (a, "const " if const else "", spelled, name, init))
        else:
            if const and r.random() < .3:
                lines.append("using %s_t = const %s; %s%s_t %s%s;" % (name, spelled, a, name, name, init))
            else:
                mut = "mutable " if not const and r.random() < .1 else ""
                lines.append("%s%s%s%s %s%s;" % (a, mut, "const " if const else "", spelled, name, init))
        mem.append(Member(name, py, t, v, not const and not ro, static, not hidden))
        h.feature("member/%s%s%s" % ("static-" if static else "", "const" if const else "readonly" if ro else "rw", "-hidden" if hidden else ""))
    if r.random() < .3 and style != "union":
        name = h.id("x")
        lines.append("private: int %s = 1; protected: static inline int %s_s = 2; public:" % (name, name))
    dump = "std::string dump() const { return %s; }" % ' + ";" + '.join("rec::s(%s)" % m.name for m in mem)
    py = "m." + C
    if style in ("plain", "union"):
        h.add("%s GENPYBIND(visible) %s {" % ("struct" if style == "plain" else "union", C), *lines, dump, "};")
    elif style == "class":
        h.add("class GENPYBIND(visible) %s { int hidden_private = 4; public:" % C, *lines, dump, "};")
    elif style == "template":
        k = r.randrange(len(lines))
        h.add("template <typename T, int N> struct GENPYBIND(visible) %s {" % C, *lines, "T tt{}; static constexpr int nn = N;", dump, "};", "template struct %s<double, 4>;" % C)
        py = "m.%s_double_4_" % C
        h.probe("[%s().tt, %s.nn]" % (py, py), [0.0, 4])
    elif style == "nested":
        ns = h.id("n")
        h.add("namespace %s GENPYBIND(module) { struct GENPYBIND(visible) O%s { struct %s {" % (ns, C, C), *lines, dump, "}; }; }")
        py = "m.%s.O%s.%s" % (ns, C, C)
    elif style == "derived":
        h.add("struct GENPYBIND(visible) B%s {" % C, *lines, dump, "};", "struct GENPYBIND(visible) %s : B%s { int own = 1; };" % (C, C))
    elif style == "multi":
        k = r.randrange(len(lines))
        h.add("struct GENPYBIND(visible) Z%s { int zz = 77; };" % C, "struct GENPYBIND(visible) B%s {" % C, *lines, dump, "};", "struct GENPYBIND(visible) %s : Z%s, B%s { int own = 1; };" % (C, C, C))
        h.probe("%s().zz" % py, 77)
    else:
        h.add("struct B%s { GENPYBIND_DUMMY" % C if False else "struct GENPYBIND(visible) B%s {" % C, *lines, dump, "};",
              "struct GENPYBIND(visible, inline_base(B%s)) %s : B%s { int own = 1; };" % (C, C, C))
    state = {i: {m.name: m.val for m in mem if not m.static} for i in (0, 1)}
    stat = {m.name: m.val for m in mem if m.static}
    a, b = h.id("o"), h.id("o")
    h.probe("@%s = %s(); %s = %s()" % (a, py, b, py), None)

    def dumps():
        return [";".join((stat[m.name] if m.static else state[i][m.name])[2] for m in mem) for i in (0, 1)]

    def look(o, i, m):
        v = stat[m.name] if m.static else state[i][m.name]
        h.probe(*want_read(m.t, v, "%s.%s" % (o, m.py)))
    for m in mem:
        if not m.shown:
            h.probe("hasattr(%s, '%s')" % (py, m.py), False)
            continue
        for o, i in ((a, 0), (b, 1)):
            look(o, i, m)
        if m.static:
            look(py, 0, m)
    steps = r.randrange(4, 9)
    for _ in range(steps):
        m = r.choice(mem)
        if not m.shown:
            continue
        i = r.randrange(2)
        o = (a, b)[i]
        v = r.choice(VALUES[m.t])
        if m.static:
            o = py
        if m.writable:
            h.probe("[attempt(%s, '%s', %s), %s.dump(), %s.dump()]" % (o, m.py, v[1], a, b), None)
            if m.static:
                stat[m.name] = v
            else:
                state[i][m.name] = v
            h.probes[-1] = (h.probes[-1][0], ["written"] + dumps())
        else:
            h.probe("[attempt(%s, '%s', %s), %s.dump(), %s.dump()]" % (o, m.py, v[1], a, b), ["AttributeError"] + dumps())
        look(o if not m.static else r.choice([py, a]), i, m)
        # writes of the wrong type leave everything as it was
        if r.random() < .2 and m.t not in ("bool",):
            h.probe("[attempt(%s, '%s', object()), %s.dump(), %s.dump()]" % (o, m.py, a, b), [Pred("an error", lambda x: x in ("TypeError", "AttributeError"))] + dumps())
    for m in mem:
        if m.shown and m.t == "P" and not m.static and m.writable and r.random() < .7:
            state[0][m.name] = ("", "", "P42")
            h.probe("@%s.%s.v = 42; _ = [%s.dump(), %s.dump()]" % (a, m.py, a, b), dumps(), "the member object itself")


def pointer(h):
    r = h.rng
    C = h.id("C")
    h.add("struct GENPYBIND(visible) %s { P *p = nullptr; const P *cp = nullptr; P *const kp = nullptr; P own{6}; std::string dump() const { return rec::s(p) + rec::s(cp) + rec::s(own); } void point() { p = &own; cp = &own; } };" % C)
    h.probe("@o = m.%s(); q = m.P(8); _ = [o.p, o.cp, attempt(o, 'p', q), o.p is q, o.dump(), o.cp]" % C, [None, None, "written", True, "*P8nullP6", None])
    h.probe("@q.v = 9; _ = [o.dump(), attempt(o, 'p', None), o.dump(), attempt(o, 'kp', q)]", ["*P9nullP6", "written", "nullnullP6", "AttributeError"])
    h.probe("@o.point(); o.p.v = 11; _ = [o.dump(), o.own.v]", ["*P11*P11P11", 11])
    h.feature("pointer")


def changed_in_cpp(h):
    """Reading shows what C++ wrote in the meantime."""
    r = h.rng
    C = h.id("C")
    t = r.choice(["int", "double", "std::string", "E", "bool", "std::vector<int>"])
    a, b = r.sample(VALUES[t][:2], 2)
    s = r.random() < .5
    br = (lambda x: x if x.startswith("{") else "{%s}" % x)
    h.add("struct GENPYBIND(visible) %s { %s%s %s%s f%s; void change() { f = %s%s; } };" % (
        C, "GENPYBIND(readonly) " if r.random() < .5 else "", "inline static" if s else "", t, "", br(a[0]), t, br(b[0])))
    h.probe("@o = m.%s(); before = o.f == %s; o.change(); _ = before, o.f == %s, m.%s().f == %s" % (C, a[1], b[1], C, b[1] if s else a[1]), [True, True, True])
    h.feature("changed")


def prop(h):
    """Properties with random accessors; every accessor logs its call."""
    r = h.rng
    C = h.id("C")
    style = r.choice(["plain", "template", "derived", "inlined", "virtual", "nested"])
    h.feature("prop/" + style)
    lines, state = [], {}
    props, methods = [], {}
    n = r.randrange(1, 5)
    same = r.random() < .4
    for i in range(n):
        t = r.choice(TYPES)
        v = r.choice(VALUES[t])
        fld = h.id("d")
        lines.append("private: %s %s%s; public:" % (t, fld, v[0] if v[0].startswith("{") else "{%s}" % v[0]))
        names = [h.id("p") for _ in range(r.choice([1, 1, 1, 2]))]
        gname, sname = (h.id("acc"),) * 2 if r.random() < .5 else (h.id("get"), h.id("set"))
        if r.random() < .25:
            gname = sname = names[0]
        const = r.random() < .7
        ret = r.choice([t, "const %s &" % t, t, "const %s" % t] + ([] if const else ["%s &" % t]))
        gk = h.id("")
        virt = "virtual " if style == "virtual" else ""
        gann = ", ".join(r.choice(["getter_for(%s)", 'getter_for("%s")']) % x for x in names) if r.random() < .5 else "getter_for(%s)" % ", ".join(names)
        if r.random() < .3:
            gann = r.choice(["visible, " + gann, gann + ", visible"])
        dflt = r.choice(["", "", "", "int k = 0", "const std::string &why = \"w\", int k = 3"]) if gname != sname else ""
        use = "".join(" + rec::s(%s)" % x for x in ([] if not dflt else ["k"]))
        place = r.choice(["type", "front"])
        lines.append("GENPYBIND(%s) %s%s %s(%s)%s { rec::log += \"g%s\"%s; rec::log += \";\"; return %s; }" % (
            gann, virt, ret, gname, dflt, " const" if const else "", gk, "" if not dflt else " + rec::s(k)", fld))
        glog = "g%s%s;" % (gk, {"": "", "int k = 0": "0"}.get(dflt, "3"))
        writable = []
        slog = None
        if r.random() < .7:
            sk = h.id("")
            which = names if r.random() < .7 else names[:1]
            writable = which
            sd = r.choice(["", "", ", int k = 4"])
            arg = r.choice(["const %s &x" % t, "%s x" % t, "const %s x" % t])
            sret, rv = r.choice([("void", ""), ("void", ""), ("int", "return 1;"), ("%s &" % C if style == "plain" else "bool", "return *this;" if style == "plain" else "return true;")])
            lines.append("GENPYBIND(setter_for(%s)) %s%s %s(%s%s) { rec::log += \"s%s(\" + rec::s(x)%s + \");\"; %s = x; %s }" % (
                ", ".join(which), virt, sret, sname, arg, sd, sk, " + rec::s(k)" if sd else "", fld, rv))
            slog = ("s%s(" % sk, "4" if sd else "", ")")
        # an unrelated overload stays a method
        if gname != names[0] and r.random() < .4:
            k = h.id("")
            lines.append("int %s(P, P) const { return %s; }" % (gname, k))
            methods[gname] = int(k)
        for nm in names:
            props.append((nm, t, fld, glog, slog if nm in writable else None))
        for nm in {gname, sname} - set(names):
            methods.setdefault(nm, None)
        state[fld] = v
    h.text.append("")
    dump = "std::string dump() const { return std::string()%s; }" % "".join(' + rec::s(%s) + ";"' % f for f in state)
    py = "m." + C
    if style == "plain":
        h.add("struct GENPYBIND(visible) %s {" % C, *lines, dump, "};")
    elif style == "template":
        h.add("template <typename T> struct GENPYBIND(visible) %s {" % C, *lines, dump, "};", "template struct %s<int>;" % C)
        py += "_int_"
    elif style == "nested":
        h.add("struct GENPYBIND(visible) O%s { struct %s {" % (C, C), *lines, dump, "}; };")
        py = "m.O%s.%s" % (C, C)
    elif style == "derived":
        h.add("struct GENPYBIND(visible) B%s {" % C, *lines, dump, "};", "struct GENPYBIND(visible) %s : B%s {};" % (C, C))
    elif style == "inlined":
        h.add("struct GENPYBIND(visible) B%s {" % C, *lines, dump, "};", "struct GENPYBIND(visible, inline_base(B%s)) %s : B%s {};" % (C, C, C))
    else:
        h.add("struct GENPYBIND(visible) %s {" % C, *lines, dump, "virtual ~%s() = default; };" % C)
    a, b = h.id("o"), h.id("o")
    h.probe("@%s = %s(); %s = %s(); m.take_log()" % (a, py, b, py), None)
    if style in ("plain", "template", "nested", "virtual", "inlined"):
        want = {nm: "property" for nm, *_ in props}
        want.update({k: "method" for k, v in methods.items() if v is not None})
        want["dump"] = "method"
        h.probe("{k: kind(%s.__dict__[k]) for k in own(%s) - {'__init__'}}" % (py, py), want)
    st = {0: dict(state), 1: dict(state)}

    def dumps():
        return ["".join(st[i][f][2] + ";" for f in state) for i in (0, 1)]
    for nm, t, fld, glog, slog in props:
        code, want = want_read(t, st[0][fld], "o1")
        h.probe("@o1 = %s.%s; _ = [%s, m.take_log(), %s.dump(), %s.dump()]" % (a, nm, code, a, b), [want, glog] + dumps())
    for _ in range(r.randrange(2, 6)):
        nm, t, fld, glog, slog = r.choice(props)
        i = r.randrange(2)
        v = r.choice(VALUES[t])
        o = (a, b)[i]
        if slog:
            st[i][fld] = v
            h.probe("[attempt(%s, '%s', %s), m.take_log(), %s.dump(), %s.dump()]" % (o, nm, v[1], a, b), ["written", slog[0] + v[2] + slog[1] + slog[2] + ";"] + dumps())
        else:
            h.probe("[attempt(%s, '%s', %s), m.take_log(), %s.dump(), %s.dump()]" % (o, nm, v[1], a, b), ["AttributeError", ""] + dumps())
        code, want = want_read(t, st[i][fld], "o1")
        h.probe("@o1 = %s.%s; _ = [%s, m.take_log()]" % (o, nm, code), [want, glog])
    for nm, k in methods.items():
        if k is not None:
            h.probe("%s.%s(m.P(), m.P())" % (a, nm), k)
        else:
            h.probe("hasattr(%s, '%s')" % (a, nm), False)


def roles(h):
    """Methods with arbitrary combinations of accessor roles."""
    r = h.rng
    C = h.id("C")
    base = r.random() < .3
    lines, getter, setter, methods = [], {}, {}, []
    names = [h.id("p") for _ in range(r.randrange(2, 6))]
    free_g, free_s = list(names), list(names)
    r.shuffle(free_g)
    r.shuffle(free_s)
    left_g = len(names)
    while free_g or (free_s and r.random() < .6):
        k = h.id("")
        g = [free_g.pop() for _ in range(min(len(free_g), r.randrange(0, 3)))]
        s = [free_s.pop() for _ in range(min(len(free_s), r.randrange(0, 3)))]
        if not g and not s:
            continue
        name = h.id("acc") if r.random() < .7 or not methods else r.choice(methods)
        params = "int x = 7" if g and s else "" if g else r.choice(["int x", "int x = 7", "const int &x", "const int x", "double x", "int x, int y = 2"])
        if any(n == name and ("=" in p + params or p.count("x") == params.count("x")) for n, p, _ in lines):
            name = h.id("acc")  # not ambiguous
        anns = []
        for role, ps in (("getter_for", g), ("setter_for", s)):
            if ps and r.random() < .5:
                anns.append("%s(%s)" % (role, ", ".join(ps)))
            else:
                anns += ["%s(%s)" % (role, q if r.random() < .5 else '"%s"' % q) for q in ps]
        r.shuffle(anns)
        const = r.random() < .3
        body = 'rec::log += "a%s("%s ; rec::log += ");"; %sreturn %s * 1000 + v;' % (k, ' + std::to_string(static_cast<int>(x))' if params else "", "" if const else ("v = static_cast<int>(x); " if params else ""), k)
        lines.append((name, params, "GENPYBIND(%s) int %s(%s)%s { %s }" % (", ".join(anns), name, params, " const" if const else "", body)))
        methods.append(name)
        for q in g:
            getter[q] = (int(k), "7" if params else None, const)
        for q in s:
            setter[q] = (int(k), const)
        h.feature("roles/%d-%d%s" % (len(g), len(s), "-same" if set(g) & set(s) else ""))
    body = [x[2] for x in lines]
    if base:
        h.add("struct GENPYBIND(visible) B%s { int v = 1;" % C, *body, "};", "struct GENPYBIND(visible) %s : B%s {};" % (C, C))
    else:
        h.add("struct GENPYBIND(visible) %s { int v = 1;" % C, *body, "};")
        h.probe("{k: kind(m.%s.__dict__[k]) for k in own(m.%s) - {'__init__', 'v'}}" % (C, C), {q: "property" for q in getter})
    h.probe("@o = m.%s(); m.take_log()" % C, None)
    v = 1
    for _ in range(2 * len(names)):
        q = r.choice(names)
        if r.random() < .5 and q in setter:
            k, const = setter[q]
            new = r.randrange(2, 90)
            if not const:
                v = new
            h.probe("[attempt(o, '%s', %d), m.take_log(), o.v]" % (q, new), ["written", "a%d(%d);" % (k, new), v])
        elif r.random() < .4 and q not in setter:
            h.probe("[attempt(o, '%s', 5), m.take_log(), o.v]" % q, ["AttributeError", "", v])
        else:
            k, arg, const = getter[q]
            if arg and not const:
                v = 7
            h.probe("[o.%s, m.take_log(), o.v]" % q, [k * 1000 + v, "a%d(%s);" % (k, arg or ""), v])


def overridden(h):
    """Virtual accessors and properties redefined in derived classes."""
    r = h.rng
    C, D = h.id("C"), h.id("D")
    h.add("struct GENPYBIND(visible) %s { int x = 1; GENPYBIND(getter_for(val)) virtual int get() const { return x; } GENPYBIND(setter_for(val)) virtual void set(int v) { x = v; } virtual ~%s() = default; };" % (C, C))
    if r.random() < .5:
        h.add("struct GENPYBIND(visible) %s : %s { GENPYBIND(hidden) int get() const override { return x + 100; } GENPYBIND(hidden) void set(int v) override { x = v * 10; } };" % (D, C))
        h.probe("@o = m.%s(); p = m.%s(); a = [o.val, p.val]; o.val = 3; p.val = 3; _ = a + [o.val, p.val, 'val' in m.%s.__dict__]" % (C, D, D), [1, 101, 3, 130, False])
    else:
        h.add("struct GENPYBIND(visible) %s : %s { GENPYBIND(getter_for(val)) int other() const { return x + 200; } };" % (D, C))
        h.probe("@o = m.%s(); p = m.%s(); a = [o.val, p.val]; o.val = 3; b = attempt(p, 'val', 3); _ = a + [o.val, p.val, b, hasattr(p, 'other'), hasattr(p, 'get')]" % (C, D), [1, 201, 3, 201, "AttributeError", False, False])
    h.feature("overridden")


def variables(h):
    """Namespace-scope variables: value at import."""
    r = h.rng
    ns = h.id("n")
    mod = r.random() < .6
    py = "m.%s." % ns if mod else "m."
    vis = r.random() < .5
    ann = ([] if not mod else ["module"]) + (["visible"] if vis else [])
    h.add("namespace %s %s {" % (ns, "GENPYBIND(%s)" % ", ".join(ann) if ann else ""))
    for _ in range(r.randrange(2, 6)):
        t = r.choice([x for x in TYPES])
        v = r.choice(VALUES[t])
        nm = h.id("v")
        init = v[0] if v[0].startswith("{") else "{%s}" % v[0]
        form = r.choice(["inline %s", "inline const %s", "static %s", "static const %s", "const %s", "extern"])
        show, py_nm, a = True, nm, "GENPYBIND(visible) "
        q = r.random()
        if q < .25:
            py_nm = h.id("Py")
            a = "GENPYBIND(expose_as(%s)) " % py_nm
        elif q < .35:
            a, show = "GENPYBIND(hidden) ", False
        elif q < .6:
            a, show = "", vis
        if form == "extern":
            h.add("%sextern %s %s;" % (a, t, nm), "inline %s %s%s;" % (t, nm, init)) if False else h.add("%sextern const %s %s;" % (a, t, nm), "inline const %s %s%s;" % (t, nm, init)) if False else h.add("%sinline %s %s%s;" % (a, t, nm, init))
        else:
            h.add("%s%s %s%s;" % (a, form % t, nm, init))
        if show:
            code, want = want_read(t, v, py + py_nm)
            h.probe(code, want)
        else:
            h.probe("hasattr(%s, '%s')" % (py[:-1], py_nm), False)
        h.feature("variable/" + form)
    k = h.id("v")
    h.add("inline int %s_f() { static int n = 0; return ++n; }" % k, "GENPYBIND(visible) inline int %s = %s_f() + 4;" % (k, k), "GENPYBIND(visible) inline int %s_change() { %s = 99; return %s; }" % (k, k, k), "}")
    h.probe("@a = %s%s; b = %s%s_change(); _ = [a, b]" % (py, k, py, k), [5, 99])


def head(rng):
    h = H(rng, INC)
    h.add(WORLD, "namespace rec { inline std::string log; }", "GENPYBIND(visible) inline std::string take_log() { std::string r; r.swap(rec::log); return r; }")
    h.setup.append(SETUP)
    return h


UNITS = [klass, klass, klass, prop, prop, prop, roles, roles, pointer, changed_in_cpp, overridden, variables]


def tasks(rng, tier):
    out, order = [], []
    for i in range(64 if tier == "quick" else 2500):
        h = head(rng)
        for _ in range(5):
            if not order:
                order = list(UNITS)
                rng.shuffle(order)
            u = order.pop()
            h.feature(u.__name__)
            u(h)
        out.append(h.case("members/%d" % i))
    return out
