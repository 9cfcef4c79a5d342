"""C++ operators map to the Python operators with the same meaning."""
from ..engine import Exc
from ..gen import H

RULE = ("classes (global, in namespaces and modules, nested, template instantiations, derived) with random sets of unary, binary, "
        "reflected, comparison and in-place operators as members, friends and free functions over several operand types; every "
        "Python expression is compared with the C++ operator it must run, the complete attribute set with the operators that "
        "have a counterpart; distinct by header text, non-trivial if operator expressions were evaluated")

REC = r'''
namespace rec {
inline std::string s(int v) { return "i" + std::to_string(v); }
inline std::string s(double v) { return "d" + std::to_string(static_cast<long>(v * 2)); }
inline std::string s(const std::string &v) { return "s" + v; }
inline std::string s(E v) { return "e" + std::to_string(static_cast<int>(v)); }
template <typename T> auto s(const T &v) -> decltype(v.rr()) { return v.rr(); }
template <typename... A> std::string op(int k, const A &...a) { std::string r = std::to_string(k); ((r += "|" + s(a)), ...); return r; }
}
'''
BIN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "%": "mod", "^": "xor", "&": "and", "|": "or", "<<": "lshift", ">>": "rshift"}
CMP = {"<": "lt", ">": "gt", "<=": "le", ">=": "ge", "==": "eq", "!=": "ne"}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
UN = {"+": "pos", "-": "neg", "~": "invert"}


def pyname(op, side):
    if op in CMP:
        return "__%s__" % CMP[op if side == "l" else SWAP[op]]
    if op.endswith("=") and op not in CMP:
        return "__i%s__" % BIN[op[:-1]] if side == "l" else None
    return "__%s%s__" % ("" if side == "l" else "r", BIN[op])


class Cls:
    def __init__(self, tag, cpp, ns, py, ctor=True):
        self.tag, self.cpp, self.ns, self.py = tag, cpp, ns, py
        self.inside = []        # lines in the class body
        self.names = set()      # expected special methods
        self.keys = set()       # (python name, type of other operand)
        self.outer_inside = None

    def value(self, v):
        return "%s(%d)" % (self.py, v)

    def text(self, v):
        return "%s:%d" % (self.tag, v)


class World:
    """Two or three classes of one header and their operators."""

    def __init__(self, h):
        self.h, self.r = h, h.rng
        self.k = 0
        self.classes = []
        self.free = {}      # namespace -> lines after the classes
        self.pre = {}

    def operand(self, t, v):
        """(python, record) of a value of type t"""
        if isinstance(t, Cls):
            return t.value(v), t.text(v)
        return {"int": ("%d" % v, "i%d" % v), "double": ("%d.5" % v, "d%d" % (2 * v + 1)),
                "std::string": ("'t%d'" % v, "st%d" % v), "E": ("m.E.e%d" % (v % 3), "e%d" % (v % 3))}[t]

    def ptype(self, t, free):
        if isinstance(t, Cls):
            return self.r.choice([t.cpp, "const %s &" % t.cpp, "const %s &" % t.cpp, "%s const &" % t.cpp] + ["%s &" % t.cpp])
        if t == "std::string":
            return self.r.choice([t, "const std::string &"])
        if t == "E":
            return "::E"
        return self.r.choice([t, "const %s &" % t, "const " + t])


def make_class(w, i, style):
    h, r = w.h, w.r
    n = h.id("X")
    if style == "global":
        c = Cls(n, "::" + n, "", "m." + n)
    elif style == "ns":
        c = Cls(n, "::p%d::%s" % (w.base, n), "p%d" % w.base, "m." + n)
    elif style == "module":
        c = Cls(n, "::q%d::%s" % (w.base, n), "q%d" % w.base, "m.q%d.%s" % (w.base, n))
    elif style == "nested":
        c = Cls(n, "::p%d::O%s::%s" % (w.base, n, n), "p%d" % w.base, "m.O%s.%s" % (n, n))
    elif style == "template":
        c = Cls(n, "::p%d::%s<int>" % (w.base, n), "p%d" % w.base, "m.%s_int_" % n)
    else:
        c = Cls(n, "::" + n, "", "m.Py" + n)
    c.style, c.name = style, n
    return c


def emit_class(w, c):
    body = ["int v; %s(int v_) : v(v_) {} std::string GENPYBIND(expose_as(rr)) rr() const { return \"%s:\" + std::to_string(v); }" % (c.name, c.tag)]
    body += ["  " + x for x in c.inside]
    head = {"expose_as": "struct GENPYBIND(visible, expose_as(Py%s)) %s {" % (c.name, c.name),
            "template": "template <typename T> struct GENPYBIND(visible) %s {" % c.name}.get(
                c.style, "struct GENPYBIND(visible) %s {" % c.name)
    lines = [head] + body + ["};"]
    if c.style == "template":
        lines.append("template struct %s<int>;" % c.name)
    if c.style == "nested":
        outer = (c.outer_inside or [])
        lines = ["struct GENPYBIND(visible) O%s {" % c.name] + lines + outer + ["};"]
    if c.ns:
        lines = ["namespace %s%s {" % (c.ns, " GENPYBIND(module)" if c.style == "module" else "")] + lines + ["}"]
    return lines


def place(w, c, other, where, sig, body, extra=""):
    """Emit an operator; returns which classes can find it (by ADL)."""
    full = "%s %s" % (sig, body)
    found = [c]
    if where == "friend":
        c.inside.append("%s friend inline %s" % (extra, full) if not body.startswith("=") else "%s friend %s %s" % (extra, sig, body))
    elif where == "friend_out" and c.style not in ("template", "nested"):
        c.inside.append("%s friend %s;" % (extra, sig))
        w.free.setdefault(c.ns, []).append("inline " + full)
        if isinstance(other, Cls) and other.ns == c.ns:
            found.append(other)
    elif where == "outer":
        c.outer_inside = (c.outer_inside or []) + ["%s friend inline %s" % (extra, full)]
    else:
        w.free.setdefault(c.ns, []).append("%s inline %s" % (extra, full))
        if isinstance(other, Cls) and other.ns == c.ns:
            found.append(other)
    return found


def add_operator(w, c, op):
    """One binary operator of class c with some other operand."""
    r, h = w.r, w.h
    others = [c, c, "int", "double", "std::string", "E"] + [x for x in w.classes if x is not c]
    t = r.choice(others)
    inplace = op.endswith("=") and op not in CMP
    side = "l" if inplace or t is c or r.random() < .6 else "r"
    where = r.choice(["member", "member", "friend", "friend_out", "free"] + (["outer"] * 2 if c.style == "nested" else []))
    if side == "r" and where == "member":
        where = "friend"
    if c.style == "template" and where in ("friend_out",):
        where = "friend"
    if side == "r" and t == "std::string" and op == "%":
        return
    if side == "r" and t == "E" and op in ("==", "!="):
        return
    if isinstance(t, Cls) and t is not c and (w.classes.index(t) > w.classes.index(c)) and where != "free":
        # the other class is incomplete inside this one
        where = "free"
    # uniqueness of what Python sees
    claims = {(c, pyname(op, side), t)}
    if t is c:
        claims = {(c, pyname(op, "l"), c)}
    elif isinstance(t, Cls) and not inplace:
        claims.add((t, pyname(op, "r" if side == "l" else "l"), c))
        # the opposite order would be tried first by Python for comparisons of related types
    if any((n, o) in x.keys for x, n, o in claims):
        return
    # enums can be converted to int by Python
    if t in ("int", "E") and any((n, "E" if o == "int" else "int") in x.keys for x, n, o in claims):
        return
    # C++: with an int and a double overload both are fine; conversions between int/E are not used
    for x, n, o in claims:
        x.keys.add((n, o))
    w.k += 1
    k = w.k
    visible = True
    extra, body_kind = "", "def"
    q = r.random()
    if q < .08:
        extra, visible = "GENPYBIND(hidden)", False
    elif q < .14 and where != "friend_out" and where != "outer":
        body_kind, visible = "deleted", False
    elif q < .2 and where == "member":
        body_kind, visible = "private", False
    elif q < .3:
        extra = "GENPYBIND(visible)"
    ct = c.cpp
    if inplace:
        body = "{ self.v = self.v * 3 + %d; rec::last = rec::op(%d, self, o); return self; }" % (k, k)
        rtype = ct + " &"
    else:
        kind = r.choice(["str", "str", "obj"]) if op not in CMP else r.choice(["str", "bool"])
        expr = {"str": "rec::op(%d, a, b)" % k, "bool": "rec::flag(rec::op(%d, a, b))" % k,
                "obj": "(rec::last = rec::op(%d, a, b), %s(a.v * 100 + %d))" % (k, ct, k) if side == "l" else "(rec::last = rec::op(%d, a, b), %s(b.v * 100 + %d))" % (k, ct, k)}[kind]
        rtype = {"str": "std::string", "bool": "bool", "obj": ct}[kind]
    tname = w.ptype(t, where != "member")
    if c.style == "template" and where != "free":
        # inside the template the class is written by its own name
        tname = tname.replace("::p%d::%s<int>" % (w.base, c.name), c.name)
        rtype = rtype.replace("::p%d::%s<int>" % (w.base, c.name), c.name)
        ct = c.name
    if where == "member":
        const = "" if inplace or r.random() < .2 else " const"
        pre = "auto &self = *this; (void)self;" if inplace else "auto &a = *this; (void)a;"
        arg = "o" if inplace else "b"
        if body_kind != "deleted":
            spec = r.choice(["", "", "", "virtual ", "inline ", "virtual "])
            extra, const = r.choice(["", "", "[[nodiscard]] "]) + extra + " " + spec, const + r.choice(["", "", " noexcept(false)"])
        if body_kind == "deleted":
            line = "%s %s operator%s(%s)%s = delete;" % (extra, rtype, op, tname, const)
        elif inplace:
            line = "%s %s operator%s(%s %s)%s { %s %s" % (extra, rtype, op, tname, arg, const, pre, body[1:])
        else:
            line = "%s %s operator%s(%s %s)%s { %s return %s; }" % (extra, rtype, op, tname, arg, const, pre, expr)
        if body_kind == "private":
            line = r.choice(["private:", "protected:"]) + " " + line + " public:"
        c.inside.append(line)
        found = [c]
    else:
        self_t = r.choice([ct, "const %s &" % ct, "const %s &" % ct, ct + " &"]) if not inplace else ct + " &"
        if inplace:
            params = "%s self, %s o" % (self_t, tname)
        elif side == "l":
            params = "%s a, %s b" % (self_t, tname)
        else:
            params = "%s a, %s b" % (tname, self_t)
        sig = "%s operator%s(%s)" % (rtype, op, params)
        b = "= delete;" if body_kind == "deleted" else body if inplace else "{ return %s; }" % expr
        found = place(w, c, t, where, sig, b, extra)
    h.feature("%s/%s/%s" % ("inplace" if inplace else "cmp" if op in CMP else "bin", where, side))
    if not visible:
        h.feature("invisible/" + (body_kind if body_kind != "def" else "hidden"))
    # expectations
    for x in found:
        if visible:
            nm = pyname(op, side if x is c else ("r" if side == "l" else "l"))
            if nm:
                x.names.add(nm)
    w.ops.append((c, op, side, t, k, visible, None if inplace else kind))


def probes(w):
    h, r = w.h, w.r
    for c, op, side, t, k, visible, kind in w.ops:
        v, u = r.randrange(1, 9), r.randrange(1, 9)
        pc, rc_ = c.value(v), c.text(v)
        pt, rt = w.operand(t, u)
        if not visible:
            continue
        left = c if side == "l" else t
        if op == "!=" and left in w.classes and "__eq__" in left.names and "__ne__" not in left.names:
            continue  # Python derives != from == of the left operand before it asks the right one.
        if kind is None:
            h.probe("@x = %s; y = x; x %s %s; _ = [x is y, x.rr(), m.last()]" % (pc, op, pt),
                    [True, c.text(v * 3 + k), "%d|%s|%s" % (k, c.text(v * 3 + k), rt if t is not c else rt)], "in-place")
            continue
        expr = "%s %s %s" % ((pc, op, pt) if side == "l" else (pt, op, pc))
        rec = "%d|%s|%s" % ((k, rc_, rt) if side == "l" else (k, rt, rc_))
        if kind == "str":
            h.probe(expr, rec)
        elif kind == "bool":
            h.probe("[(%s) is m.flag(%r), m.last()]" % (expr, rec), [True, rec])
        else:
            h.probe("[(%s).rr(), m.last()]" % expr, [c.text(v * 100 + k), rec])
    for c in w.classes:
        h.probe("sorted(own(%s) - {'v', 'rr', '__init__', '__hash__'})" % c.py, sorted(c.names), "special methods of " + c.cpp)


def add_unary(w, c):
    r, h = w.r, w.h
    op = r.choice(["+", "-", "~", "~", "-"])
    if ("u", op) in c.keys:
        return
    c.keys.add(("u", op))
    w.k += 1
    ct = c.cpp if c.style != "template" else c.name
    hid = r.random() < .12
    ex = "GENPYBIND(hidden) " if hid else ""
    where = r.choice(["member", "friend", "free"])
    if where == "member":
        c.inside.append("%sstd::string operator%s()%s { return rec::op(%d, *this); }" % (ex, op, r.choice(["", " const"]), w.k))
    elif where == "friend" or c.style == "template":
        c.inside.append("%sfriend std::string operator%s(%s a) { return rec::op(%d, a); }" % (ex, op, r.choice(["const %s &" % ct, ct]), w.k))
    else:
        w.free.setdefault(c.ns, []).append("%sinline std::string operator%s(%s a) { return rec::op(%d, a); }" % (ex, op, r.choice(["const %s &" % ct, ct, ct + " &"]), w.k))
    h.feature("unary/" + where)
    if not hid:
        c.names.add("__%s__" % UN[op])
        v = r.randrange(1, 9)
        h.probe("%s%s" % (op, c.value(v)), "%d|%s" % (w.k, c.text(v)))
        if ("__%s__" % BIN.get(op, "x"), c) not in c.keys and op != "~":
            pass
    else:
        h.probe("%s%s" % (op, c.value(2)), Exc("TypeError"))


NOTHING = [
    "bool operator!() const { return true; }", "int operator[](int i) const { return i; }", "{T} &operator++() { return *this; }",
    "{T} operator++(int) { return *this; }", "{T} &operator--() { return *this; }", "{T} &operator=(int) { return *this; }",
    "{T} *operator->() { return this; }", "int operator*() const { return 3; }", "const {T} *operator&() const { return this; }",
    "bool operator&&(const {T} &) const { return true; }", "bool operator||(int) const { return true; }", "int operator,(int) const { return 3; }",
    "int operator->*(int) const { return 3; }", "static void *operator new(std::size_t n) { return ::operator new(n); }",
    "static void operator delete(void *p) { ::operator delete(p); }", "{T} &operator=(const {T} &) = default; {T}(const {T} &) = default;",
    "friend bool operator!(const {T} &) { return true; }", "friend bool operator&&(int, const {T} &) { return true; }",
    "friend int operator,(const {T} &, const {T} &) { return 1; }", "friend {T} &operator--({T} &a) { return a; }", "friend {T} operator++({T} &a, int) { return a; }",
    "auto operator<=>(const {T} &) const = default;".replace("= default", "{ return 0 <=> 0; }").replace("const {T} &)", "const {T} &o)").replace("{ return 0 <=> 0; }", "{ return v <=> o.v; }"),
    "friend int operator+=(int a, const {T} &) { return a; }", "friend std::string operator-=(std::string a, {T}) { return a; }",
    "template <typename U> int operator+(U *) const { return 3; }", "template <typename U> friend int operator-(U *, const {T} &) { return 3; }",
    "friend int operator<<=(int a, {T}) { return a; }",
]


def add_nothing(w, c):
    for line in w.r.sample(NOTHING, w.r.randrange(1, 5)):
        kind = line.split("operator")[1][:3] + ("f" if "friend" in line else "m")
        if ("nothing", kind) in c.keys:
            continue
        if "operator=(" in line or "operator&()" in line or "= default" in line:
            if ("nothing", "copy") in c.keys:
                continue
            c.keys.add(("nothing", "copy"))
            if "operator&()" in line and "*operator&" in line:
                continue   # pybind11 itself needs the address
        # do not clash with operators under test
        sym = line.split("operator")[1].split("(")[0].strip()
        if sym in ("+", "-") and any(n in ("__add__", "__sub__", "__rsub__") for n, _ in c.keys if isinstance(n, str)):
            pass
        c.keys.add(("nothing", kind))
        c.inside.append(line.replace("{T}", c.name))
        w.h.feature("nothing/" + sym)


def add_ostream(w, c):
    r, h = w.r, w.h
    name = r.choice([None, "__str__", "__repr__", "text", "__str__"])
    if ("os",) in c.keys:
        return
    c.keys.add(("os",))
    w.k += 1
    ex = "" if name is None else "GENPYBIND(expose_as(%s))" % name
    hid = name and r.random() < .15
    if hid:
        ex = "GENPYBIND(expose_as(%s), hidden)" % name
    if name is None and r.random() < .4:
        ex = "GENPYBIND(visible)"
    lit, py = r.choice([('"<"', "<"), ('"h\\xc3\\xa9\\n"', "h\u00e9\n"), ('""', ""), ('"%s{}\\\\"', "%s{}\\"), ('std::string("a\\0b", 3)', "a\0b"), ('std::hex << 255 << "x" << std::dec', "ffx")])
    where = r.choice(["friend", "free", "friend_out", "declared"]) if c.style != "template" else r.choice(["friend"])
    if c.style == "nested" and where == "friend_out":
        where = "friend"
    ct = c.cpp if c.style != "template" else c.name
    pt = r.choice(["const %s &" % ct, ct])
    sig = "std::ostream &operator<<(std::ostream &os, %s a)" % pt
    body = "{ return os << %s << a.v; }" % lit
    if where == "friend":
        c.inside.append("%s friend %s %s" % (ex, sig, body))
    elif where == "friend_out":
        c.inside.append("%s friend %s;" % (ex, sig))
        w.free.setdefault(c.ns, []).append("inline %s %s" % (sig, body))
    elif where == "declared":
        w.free.setdefault(c.ns, []).append("%s %s;" % (ex, sig))
        w.free.setdefault(c.ns, []).append("inline %s %s" % (sig, body))
    else:
        w.free.setdefault(c.ns, []).append("%s inline %s %s" % (ex, sig, body))
    h.feature("ostream/%s/%s" % (where, name))
    if name and not hid:
        c.names.add(name)
        v = r.randrange(1, 9)
        want = py + str(v)
        h.probe({"__str__": "str(%s)", "__repr__": "repr(%s)", "text": "%s.text()"}[name] % c.value(v), want)
        if name == "text":
            h.probe("'object at' in str(%s)" % c.value(v), True)
    else:
        h.probe("'object at' in str(%s)" % c.value(3), True)


def world(h, base, count):
    """Random operators on two or three classes."""
    w = World(h)
    w.base, w.ops = base, []
    r = h.rng
    styles = [r.choice(["global", "ns", "module", "nested", "template", "expose_as", "ns"]) for _ in range(count)]
    for i, s in enumerate(styles):
        w.classes.append(make_class(w, i, s))
    allops = list(BIN) + [x + "=" for x in BIN] + list(CMP)
    for c in w.classes:
        for op in r.sample(allops, r.randrange(6, 14)):
            for _ in range(r.choice([1, 1, 2, 3])):
                add_operator(w, c, op)
        for _ in range(2):
            add_unary(w, c)
        if r.random() < .6:
            add_nothing(w, c)
        if r.random() < .6:
            add_ostream(w, c)
    for c in w.classes:
        if c.style not in ("template", "nested"):
            d = ["struct %s;" % c.name]
            h.add(*(["namespace %s%s {" % (c.ns, " GENPYBIND(module)" if c.style == "module" else "")] + d + ["}"] if c.ns else d))
    for c in w.classes:
        h.add(*emit_class(w, c))
    for ns, lines in w.free.items():
        h.add(*((["namespace %s%s {" % (ns, " GENPYBIND(module)" if ns.startswith("q") else "")] if ns else []) + lines + (["}"] if ns else [])))
    probes(w)


def every(h, op, form):
    """The given operator in one form, alone on a class."""
    c = h.id("S")
    ns = h.id("s")
    inplace = op.endswith("=") and op not in CMP
    sig = {"member": "std::string operator%s(const %s &b) const { return rec::op(1, *this, b); }",
           "friend": "friend std::string operator%s(const %s &a, const {c} &b) {{ return rec::op(1, a, b); }}".format(c=c),
           "intr": "std::string operator%s(int b) const { (void)sizeof(%s); return rec::op(1, *this, b); }",
           "intl": "friend std::string operator%s(int a, const %s &b) { return rec::op(1, a, b); }",
           "unregistered": "friend std::string operator%s(const %s &, const Unreg &) { return \"?\"; }"}
    if inplace:
        line = "%s &operator%s(const %s &o) { v += o.v; return *this; }" % (c, op, c) if form == "member" else None
        if form == "friend":
            line = "friend %s &operator%s(%s &a, const %s &b) { a.v += b.v; return a; }" % (c, op, c, c)
        elif form == "intr":
            line = "%s &operator%s(int o) { v += o; return *this; }" % (c, op)
        elif form == "intl":
            line = "friend int operator%s(int a, const %s &b) { return a + b.v; }" % (op, c)
        elif line is None:
            line = sig["unregistered"] % (op, c)
    else:
        line = sig[form] % (op, c)
    h.add("namespace %s { struct Unreg {}; struct GENPYBIND(visible) %s { int v; %s(int v_) : v(v_) {} std::string rr() const { return \"S:\" + std::to_string(v); }" % (ns, c, c), "  " + line, "}; }")
    if inplace:
        want = [] if form == "intl" else [pyname(op, "l")]
        if form in ("member", "friend", "intr"):
            h.probe("@x = m.%s(3); y = x; x %s %s; _ = [x is y, y.rr()]" % (c, op, "4" if form == "intr" else "m.%s(4)" % c), [True, "S:7"])
    else:
        want = [pyname(op, "r" if form == "intl" else "l")]
        a, b = {"member": ("m.%s(3)" % c, "m.%s(4)" % c), "friend": ("m.%s(3)" % c, "m.%s(4)" % c), "intr": ("m.%s(3)" % c, "4"),
                "intl": ("3", "m.%s(4)" % c), "unregistered": ("m.%s(3)" % c, "object()")}[form]
        if form == "unregistered":
            if op not in ("==", "!="):
                h.probe("%s %s %s" % (a, op, b), Exc("TypeError"))
        else:
            t = {"member": "1|S:3|S:4", "friend": "1|S:3|S:4", "intr": "1|S:3|i4", "intl": "1|i3|S:4"}[form]
            h.probe("%s %s %s" % (a, op, b), t)
        if form in ("intr", "member") and op not in ("==", "!="):
            h.probe("%s %s %s" % (a, op, "'str'"), Exc("TypeError"))
    h.probe("sorted(own(m.%s) - {'v', 'rr', '__init__', '__hash__'})" % c, sorted(want))


SPECIAL = ["template_arg_ns", "other_ns", "inherited", "inlined", "specialization", "late_hidden", "using_namespace", "minus_both", "const_pair", "spaceship_eq", "outer_friend", "derived_arg", "member_lshift_ostream", "eq_only", "own_ostream", "own_ostream", "value_args"]


def special(h, which):
    """Lookups and overloads that need care."""
    r = h.rng
    n = h.id("g")
    h.feature("special/" + which)
    base = "int v; {C}(int v_) : v(v_) {{}} std::string rr() const {{ return \"{C}:\" + std::to_string(v); }}"

    def cls(name, body="", ann="visible", bases=""):
        return "struct GENPYBIND(%s) %s%s { %s %s };" % (ann, name, bases, base.format(C=name), body)
    C = h.id("C")
    if which == "template_arg_ns":
        h.add("namespace %s { struct GENPYBIND(visible) %s { int t = 1; }; }" % (n, C),
              "template <typename T> struct GENPYBIND(visible) T%s { int v; T%s(int v_) : v(v_) {} std::string rr() const { return \"T:\" + std::to_string(v); } };" % (C, C),
              "template struct T%s<%s::%s>;" % (C, n, C),
              "namespace %s { inline std::string operator+(const T%s<%s> &a, int b) { return rec::op(5, a, b); } }" % (n, C, C))
        h.probe("m.T%s_%s_%s_(3) + 4" % (C, n, C), "5|T:3|i4")
    elif which == "other_ns":
        h.add("namespace %s { %s }" % (n, cls(C)), "inline std::string operator+(const %s::%s &a, int b) { return rec::op(5, a, b); }" % (n, C))
        h.probe("m.%s(3) + 4" % C, Exc("TypeError"))
    elif which == "inherited":
        D = h.id("D")
        h.add(cls(C, "std::string operator-(int b) const { return rec::op(5, *this, b); } friend std::string operator*(const %s &a, int b) { return rec::op(6, a, b); }" % C),
              "struct GENPYBIND(visible) %s : %s { %s(int v_) : %s(v_) {} std::string operator+(int b) const { return rec::op(7, *this, b); } };" % (D, C, D, C))
        h.probe("[m.%s(3) - 4, m.%s(3) * 4, m.%s(3) + 1, sorted(own(m.%s) - {'v', 'rr', '__init__'})]" % (D, D, D, D), ["5|%s:3|i4" % C, "6|%s:3|i4" % C, "7|%s:3|i1" % C, ["__add__"]])
    elif which == "inlined":
        D = h.id("D")
        h.add(cls(C, "std::string operator-(int b) const { return rec::op(5, *this, b); }", ann="visible"),
              "struct GENPYBIND(visible, inline_base(\"%s\")) %s : %s { %s(int v_) : %s(v_) {} };" % (C, D, C, D, C))
        h.probe("[m.%s(3) - 4, m.%s.__bases__ == m.%s.__bases__]" % (D, D, C), ["5|%s:3|i4" % C, True])
    elif which == "specialization":
        h.add("namespace %s {" % n, cls(C), "template <typename U> GENPYBIND(visible) std::string operator+(const %s &a, U b) { return rec::op(5, a, b); }" % C,
              "template <> inline std::string operator+(const %s &a, int b) { return rec::op(6, a, b); }" % C,
              "template std::string operator+(const %s &, std::string);" % C, "}")
        h.probe("[m.%s(3) + 4, m.%s(3) + 'x']" % (C, C), ["6|%s:3|i4" % C, "5|%s:3|sx" % C])
    elif which == "late_hidden":
        h.add("namespace %s {" % n, cls(C), "std::string operator+(const %s &a, int b);" % C, "GENPYBIND(hidden) std::string operator+(const %s &a, int b);" % C,
              "inline std::string operator+(const %s &a, int b) { return rec::op(5, a, b); }" % C, "}")
        h.probe("m.%s(3) + 4" % C, Exc("TypeError"))
    elif which == "using_namespace":
        h.add("namespace %s { inline namespace v1 { %s } inline std::string operator+(const %s &a, int b) { return rec::op(5, a, b); } }" % (n, cls(C), C))
        h.probe("m.%s(3) + 4" % C, "5|%s:3|i4" % C)
    elif which == "minus_both":
        h.add(cls(C, "std::string operator-() const { return rec::op(1, *this); } std::string operator-(const %s &o) const { return rec::op(2, *this, o); } friend std::string operator+(const %s &a) { return rec::op(3, a); } friend std::string operator+(const %s &a, const %s &b) { return rec::op(4, a, b); } int operator*() const { return 1; } std::string operator*(int b) const { return rec::op(5, *this, b); }" % (C, C, C, C)))
        h.probe("[-m.{0}(1), m.{0}(1) - m.{0}(2), +m.{0}(1), m.{0}(1) + m.{0}(2), m.{0}(1) * 2]".format(C), ["1|%s:1" % C, "2|%s:1|%s:2" % (C, C), "3|%s:1" % C, "4|%s:1|%s:2" % (C, C), "5|%s:1|i2" % C])
    elif which == "const_pair":
        h.add(cls(C, "std::string operator+(int b) const { return rec::op(1, *this, b); } std::string operator+(double b) { return rec::op(2, *this, b); } std::string operator+(const std::string &b) const { return rec::op(3, *this, b); }"))
        h.probe("[m.{0}(1) + 2, m.{0}(1) + 2.5, m.{0}(1) + 'x']".format(C), ["1|%s:1|i2" % C, "2|%s:1|d5" % C, "3|%s:1|sx" % C])
    elif which == "spaceship_eq":
        h.add(cls(C, "auto operator<=>(const %s &) const = default; bool operator==(const %s &) const = default;" % (C, C)))
        h.probe("[m.{0}(1) == m.{0}(1), m.{0}(1) == m.{0}(2), m.{0}(1) != m.{0}(1), m.{0}(1) != m.{0}(2)]".format(C), [True, False, False, True])
    elif which == "outer_friend":
        h.add("struct GENPYBIND(visible) O%s { %s friend std::string operator%%(const %s &a, int b) { return rec::op(5, a, b); } };" % (C, cls(C), C))
        h.probe("m.O%s.%s(3) %% 4" % (C, C), "5|%s:3|i4" % C)
    elif which == "derived_arg":
        D = h.id("D")
        h.add(cls(C, "std::string operator+(const %s &b) const { return rec::op(5, *this, b); }" % C), "struct GENPYBIND(visible) %s : %s { %s(int v_) : %s(v_ + 10) {} };" % (D, C, D, C))
        h.probe("[m.{0}(1) + m.{1}(2), m.{1}(1) + m.{0}(2)]".format(C, D), ["5|{0}:1|{0}:12".format(C), "5|{0}:11|{0}:2".format(C)])
    elif which == "member_lshift_ostream":
        h.add(cls(C, "std::string operator<<(int b) const { return rec::op(5, *this, b); } friend std::ostream &operator<<(std::ostream &os, const %s &a) { return os << a.v; }" % C))
        h.probe("[m.{0}(1) << 2, 'object at' in str(m.{0}(1))]".format(C), ["5|%s:1|i2" % C, True])
    elif which == "own_ostream":
        # a class that merely has the name of the standard stream
        N = r.choice(["basic_ostream", "basic_ostream", "ostream"])
        shape = r.choice(["namespace", "nested", "template", "std"])
        if shape == "template" and N != "basic_ostream":
            shape = "namespace"
        if shape == "template":
            h.add("namespace %s GENPYBIND(module) { template <typename T> struct GENPYBIND(visible) %s { int sum; %s(int s = 0) : sum(s) {} }; template struct %s<int>; %s }" % (n, N, N, N, cls(C)))
            N, path = N + "<int>", "m.%s.%s_int_" % (n, N)
        elif shape == "nested":
            h.add("struct GENPYBIND(visible) O%s { struct %s { int sum; %s(int s = 0) : sum(s) {} }; };" % (n, N, N), "namespace %s GENPYBIND(module) { using %s = O%s::%s; %s }" % (n, N, n, N, cls(C)))
            path = "m.O%s.%s" % (n, N)
        elif shape == "std":
            h.add("namespace %s GENPYBIND(module) { namespace std { struct GENPYBIND(visible) %s { int sum; %s(int s = 0) : sum(s) {} }; } using std::%s; }" % (n, N, N, N), "namespace %s GENPYBIND(module) { %s }" % (n, cls(C).replace("std::", "::std::")))
            path = "m.%s.%s" % (n, N)
        else:
            h.add("namespace %s GENPYBIND(module) { struct GENPYBIND(visible) %s { int sum; %s(int s = 0) : sum(s) {} }; %s }" % (n, N, N, cls(C)))
            path = "m.%s.%s" % (n, N)
        cpath = "m.%s.%s" % (n, C)
        ref = r.choice(["const %s &" % N, N])
        ann = "namespace %s GENPYBIND(module) {" % n
        h.add("%s %s inline %s operator<<(%s os, const %s &c) { %s res(os); res.sum = res.sum * 10 + c.v; return res; } }" % (ann, r.choice(["", "GENPYBIND(visible)"]), N, ref, C, N))
        h.probe("[({0}(1) << {1}(4) << {1}(3)).sum, 'object at' in str({1}(4)), 'object at' in str({0}())]".format(path, cpath), [143, True, True])
    elif which == "eq_only":
        h.add(cls(C, "bool operator==(const {0} &o) const {{ return v %% 10 == o.v %% 10; }} bool operator==(int o) const {{ return v == o; }}".replace("%%", "%").format(C)))
        h.probe("[m.{0}(1) == m.{0}(11), m.{0}(1) != m.{0}(11), m.{0}(1) == 1, m.{0}(1) == 2, 1 == m.{0}(1), m.{0}(1) == 'x', m.{0}(1) != m.{0}(2)]".format(C), [True, False, True, False, True, False, True])
    else:
        h.add(cls(C, "friend %s operator+(%s a, %s b) { a.v += b.v; b.v = 0; return a; } friend bool operator<(%s a, %s b) { bool r = a.v < b.v; a.v = b.v; return r; }" % ((C,) * 5)))
        h.probe("@a, b = m.{0}(1), m.{0}(2); c = a + b; d = a < b; e = b < a; _ = [a.rr(), b.rr(), c.rr(), d, e, sorted([m.{0}(3), m.{0}(1), m.{0}(2)])[0].rr()]".format(C), ["%s:1" % C, "%s:2" % C, "%s:3" % C, True, False, "%s:1" % C])


def head(rng):
    h = H(rng, ["<string>", "<ostream>", "<sstream>", "<compare>", "<new>", "<cstddef>"])
    h.add("enum class GENPYBIND(visible) E { e0, e1, e2 };", "namespace rec { inline std::string last; inline bool flag(const std::string &s) { last = s; unsigned x = 7; for (char c : s) x = x * 31 + static_cast<unsigned char>(c); return x % 2; } }", REC,
          "GENPYBIND(visible) inline std::string last() { return rec::last; }", "GENPYBIND(visible) inline bool flag(const std::string &s) { auto l = rec::last; bool r = rec::flag(s); rec::last = l; return r; }")
    return h


def tasks(rng, tier):
    out = []
    quick = tier == "quick"
    for i in range(70 if quick else 2500):
        h = head(rng)
        world(h, 1, rng.choice([1, 2, 2, 3]))
        out.append(h.case("operators/%d" % i))
    combos = [(op, f) for op in list(BIN) + [x + "=" for x in BIN] + list(CMP) for f in ("member", "friend", "intr", "intl", "unregistered")]
    rng.shuffle(combos)
    for i in range(0, len(combos), 10):
        h = head(rng)
        for op, f in combos[i:i + 10]:
            every(h, op, f)
            h.feature("every")
        out.append(h.case("every/%d" % i))
    order = []
    for i in range(8 if quick else 60):
        h = head(rng)
        for _ in range(6):
            if not order:
                order = list(SPECIAL)
                rng.shuffle(order)
            special(h, order.pop())
        out.append(h.case("special/%d" % i))
    return out
