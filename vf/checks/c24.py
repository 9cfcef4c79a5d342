"""Documentation comments become docstrings."""
from ..engine import Pred
from ..gen import batch

RULE = ("random declarations of every kind (classes, nested classes, constructors, methods, static methods, overloads, templates, operators, "
        "free functions, enums, enumerators, redeclarations) with documentation comments of every style and arbitrary text, mixed with "
        "undocumented ones, ordinary comments and decoys; signature lines and documentation of every exposed object are compared with the "
        "header; distinct by header text, non-trivial if docstrings were observed")

SETUP = '''
import re as _re
def _sub(s):
    return _re.sub(r" = <[^>]*>", " = <object>", s)
def entries(o):
    """[(signature, documentation)] of a function object, sorted."""
    d = o.__doc__
    if d is None:
        return None
    lines = d.split("\\n")
    out = []
    if len(lines) > 1 and lines[1] == "Overloaded function.":
        name = lines[0].split("(")[0]
        i, n = 3, 1
        while i < len(lines):
            pre = "%d. " % n
            if not lines[i].startswith(pre + name + "("):
                return ["?", d]
            sig, doc = lines[i][len(pre):], ""
            i += 1
            if i + 1 < len(lines) and lines[i] == "" and lines[i + 1] and not lines[i + 1].startswith("%d. %s(" % (n + 1, name)):
                doc = lines[i + 1]
                i += 2
                if i < len(lines) and lines[i] != "":
                    return ["?", d]
            out.append([_sub(sig), doc])
            n += 1
            i += 1
        return sorted(out)
    sig = lines[0]
    if lines[1:] == [""]:
        return [[_sub(sig), ""]]
    if len(lines) == 4 and lines[1] == "" and lines[3] == "":
        return [[_sub(sig), lines[2]]]
    return ["?", d]
def attrs(o):
    return {k: getattr(o, k) for k in dir(o)}
'''
WORDS = ["the", "value", "Returns", "x", "of", "brief", "a", "it's", "param", "GENPYBIND(visible)", "foo()", "int", "#1", "100%", "%s", "%d%n", "{0}", "{}", "(a, b)", "[1:2]", "a;b", "a{b}c", "...", "→", "größer",
         "ελληνικά", "日本語", "🐍", "naïve", "ﬀ", "e\u0301", "\u202eabc", "\u200b", "\u00a0", "\ufeff", "Ж", "“quoted”", "\"", "\"\"", "\"quoted\"", "'", "R\"(", ")\"", "\"\"\"", "??/", "??=", "$", "`code`", "*bold*", "_x_", "~", "^", "|",
         "=", "==", "->", ">", "a>b", "< b", "a <", "<=", "<3", "1<2", "& b", "a &", "&&", "\x01", "\x02f", "\x1b[0m", "\x7f", "\x1f9", "0", "007", "u8\"x\"", "L'x'", "// nested", "/ *", "::a::b", "std::vector", "!", "?", ",", ".", "-", "-- x", "1.", "a\\ b", "\\1", "a\\0", "\\ ", "\\(", "@ x", "a@1", "x@", "#", "##", "__a__", "\\é"]

def words(r, n=None):
    """(spelling, text) of one line"""
    a, b = [], []
    for _ in range(n or r.randrange(1, 8)):
        w = r.choice(WORDS if r.random() < .7 else ["some", "text", "here"])
        a.append(w)
        b.append(w)
    # A word in front, so that it is neither a list item, decoration nor command,
    # and one at the end, so that no line ends in a backslash.
    f, l = r.choice(["Doc", "Über", "1x", "say"]), r.choice(["end", "ende.", "ça", "x"])
    sep = r.choice([" ", " ", "  ", " \t "])
    return sep.join([f] + a + [l]), " ".join(" ".join([f] + b + [l]).split(" "))


def norm(s):
    """White space as the comment parser treats it (ASCII only)."""
    import re
    return re.sub(r"[ \t\n\v\f\r]+", " ", s).strip(" ")


def comment(r, indent=""):
    """(comment lines, text)"""
    style = r.randrange(8)
    paras = []
    lines, text = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        a, b = words(r)
        lines.append(a)
        text.append(b)
    brief = norm(" ".join(text))
    more = []
    x = r.random()
    if x < .25:
        more = [""] + [words(r)[0] for _ in range(r.randrange(1, 3))]
    elif x < .4:
        more = ["", r.choice(["\\param x something", "@return nothing", "\\details more", "@note careful", "\\tparam T t", "@code", "\\see f"])][r.randrange(2):] + (["@endcode"] if False else [])
        more = [m for m in more if m != "@code"]
        if not more or more == [""]:
            more = []
    elif x < .5:
        # an explicit brief paragraph wins over the first one
        lines = [r.choice(["\\brief ", "@brief ", "\\short "]) + lines[0]] + lines[1:]
        if r.random() < .5:
            lines = [words(r)[0], ""] + lines
            if r.random() < .5:
                lines += ["", words(r)[0]]
    lines = lines + more
    if style >= 3:
        # "*/" would end block comments
        lines = [l.replace("*/", "* /") for l in lines]
    if style in (0, 1):
        m = ["///", "//!"][style]
        out = [indent + m + r.choice([" ", " ", "  ", "\t"]) + l if l else indent + m for l in lines]
    elif style == 2:
        m = "///"
        out = [indent + m + " " + l for l in lines]
    elif style in (3, 4):
        o = ["/**", "/*!"][style - 3]
        out = [indent + o + " " + lines[0]] + [indent + " * " + l for l in lines[1:]] + [indent + " */"]
    elif style == 5:
        out = [indent + "/**"] + [indent + " * " + l for l in lines] + [indent + " */"]
    elif style == 6:
        out = [indent + "/**"] + [indent + "   " + l if l else "" for l in lines] + [indent + "*/"]
    else:
        out = [indent + "/** " + ("\n" + indent + " * ").join(lines) + " */"]
    return out, brief


def documented(r, p=.75):
    """(lines in front of the declaration, expected documentation)"""
    x = r.random()
    if x < p:
        lines, text = comment(r)
        if r.random() < .15:
            lines = lines + [""] * r.randrange(1, 3)
        if r.random() < .1:
            lines = lines + ["// an ordinary comment in between"]
        if r.random() < .1:
            lines = ["// an ordinary comment in front"] + lines
        if r.random() < .1:
            lines = ["#define VF_UNUSED_MACRO"] + lines
        return lines, text
    if r.random() < .5:
        return [r.choice(["// not documentation", "/* not documentation */", "/**/", "// \\brief nothing"])], ""
    return [], ""


TYPES = [("int", "int"), ("double", "float"), ("bool", "bool"), ("std::string", "str"), ("const std::string &", "str"), ("long", "int"), ("float", "float"), ("short", "int")]


def value(t):
    return {"int": ("3", "3"), "float": ("1.5", "1.5"), "bool": ("true", "True"), "str": ('"x\\"y"', "'x\"y'")}[t]


class Sig:
    """A random parameter list."""

    def __init__(self, r, types, n=None):
        self.cpp, self.py = [], []
        n = r.randrange(0, 4) if n is None else n
        defaults = False
        for i in range(n):
            c, p = r.choice(types)
            name = r.choice(["a%d" % i, "value_%d" % i, "x%d" % i, "größe%d" % i if False else "p%d" % i, ""]) if r.random() < .9 else ""
            d = defaults or (r.random() < .2 and p in ("int", "float", "bool", "str"))
            if d and p not in ("int", "float", "bool", "str"):
                c, p = "int", "int"
            defaults = d
            self.cpp.append("%s %s%s" % (c, name, " = " + value(p)[0] if d else ""))
            self.py.append("%s: %s%s" % (name, p, " = " + value(p)[1] if d else ""))
        self.key = tuple(x.split(":")[1].split("=")[0].strip() for x in self.py)

    def text(self, first=()):
        return "(" + ", ".join(list(first) + self.py) + ")"


def ret(r, types):
    c, p = r.choice(types + [("void", "None")])
    c = c.replace("const ", "").replace(" &", "")
    body = "{ }" if c == "void" else "{ return %s; }" % (c + "{}")
    return c, p, body


def ann(r, name, args):
    """Declaration text with the annotation in some position."""
    k = r.randrange(3)
    if k == 0:
        return "GENPYBIND(visible) %s %s%s" % (args[0], name, args[1])
    return "%s %s%s GENPYBIND(visible)" % (args[0], name, args[1])


def use_types(h):
    return list(TYPES) + h.__dict__.setdefault("doc_types", [])


def scope(h):
    """(opening lines, closing lines, python path prefix, qualified name prefix)"""
    r = h.rng
    k = r.randrange(4)
    n = h.id("sc")
    if k == 0:
        return [], [], "m", "m"
    if k == 1:
        return ["namespace %s {" % n], ["}"], "m", "m"
    if k == 2:
        lines, _ = documented(r, .5)
        return lines + ["namespace %s GENPYBIND(module) {" % n], ["}"], "m." + n, "m." + n
    return ["namespace %s GENPYBIND(module) {" % n, "namespace deeper {"], ["}", "}"], "m." + n, "m." + n


def free_functions(h):
    r = h.rng
    o, c, path, _ = scope(h)
    h.include("<string>")
    h.add(*o)
    name = h.id("fn")
    n = r.choice([1, 1, 1, 2, 3])
    seen, want = set(), []
    types = use_types(h)
    later = []
    for _ in range(n):
        s = Sig(r, types)
        if s.key in seen or any(len(s.key) == len(k) for k in seen) or any("=" in x for x in s.py) and n > 1 and seen:
            continue
        seen.add(s.key)
        if any("=" in x for x in s.py):
            seen |= {("x",) * i for i in range(4)}
        rc, rp, body = ret(r, types)
        lines, doc = documented(r)
        k = r.random()
        head = ann(r, name, (rc, "(" + ", ".join(s.cpp) + ")"))
        plain = "%s %s(%s)" % (rc, name, ", ".join(x.split(" = ")[0] for x in s.cpp))
        if k < .6:
            if r.random() < .5:
                h.add(*lines, "inline " + head + ";", "inline " + plain + " " + body)
            else:
                h.add(*lines, "inline " + head + ";")
                later.append("inline " + plain + " " + body)
        elif k < .8:
            # documented at a later declaration
            h.add("inline " + head + ";")
            later += lines + ["inline " + plain + " " + body]
        else:
            h.add("inline " + head + ";", *lines)
            h.add("inline " + plain + ";")
            later.append("inline " + plain + " " + body)
        want.append(["%s%s -> %s" % (name, s.text(), rp), doc])
        if r.random() < .3:
            h.add(*documented(r)[0], "inline void %s() {}" % h.id("hidden"))
    h.add(*later)
    h.add(*c)
    h.probe("entries(%s.%s)" % (path, name), sorted(want))


def classes(h):
    r = h.rng
    o, c, path, qual = scope(h)
    h.include("<string>")
    types = use_types(h)
    name = h.id("Cls")
    lines, doc = documented(r)
    fwd = r.random()
    h.add(*o)
    if fwd < .15:
        h.add(*lines, "struct %s;" % name)
        lines = []
    elif fwd < .25:
        h.add("struct %s;" % name)
    h.add(*lines, "%s GENPYBIND(visible) %s %s{" % (r.choice(["struct", "class"]), name, ""), "public:")
    probes = [("%s.%s.__doc__" % (path, name), doc if doc else Pred("nothing", lambda v: v in (None, "")))]
    me = "%s.%s" % (qual, name)
    want_init, lens = [], set()
    out_of_class = []
    for _ in range(r.randrange(0, 3)):
        s = Sig(r, types)
        if len(s.key) in lens or any("=" in x for x in s.py):
            continue
        lens.add(len(s.key))
        l, d = documented(r)
        h.add(*l, "  %s%s(%s) {}" % (r.choice(["", "explicit "]), name, ", ".join(s.cpp)))
        want_init.append(["__init__%s -> None" % s.text(["self: " + me]), d])
    if 0 not in lens:
        h.add("  %s() {}" % name)
        want_init.append(["__init__(self: %s) -> None" % me, ""])
    l, d = documented(r)
    h.add(*l, "  %s(const %s &other) = default;" % (name, name))
    want_init.append(["__init__(self: %s, other: %s) -> None" % (me, me), d])
    probes.append(("entries(%s.%s.__init__)" % (path, name), sorted(want_init)))
    inner = []
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(8)
        l, d = documented(r)
        rc, rp, body = ret(r, types)
        mn = h.id("me")
        s = Sig(r, types)
        params = ", ".join(s.cpp)
        noval = ", ".join(x.split(" = ")[0] for x in s.cpp)
        if k < 3:
            q = r.choice(["", " const"])
            v = r.choice(["", "", "virtual "])
            if r.random() < .35:
                h.add("  %s%s %s(%s)%s;" % (v, rc, mn, params, q))
                out_of_class += l + ["inline %s %s::%s(%s)%s %s" % (rc, name, mn, noval, q, body)]
            else:
                h.add(*l, "  %s%s %s(%s)%s %s" % (v, rc, mn, params, q, body))
            probes.append(("entries(%s.%s.%s)" % (path, name, mn), [["%s%s -> %s" % (mn, s.text(["self: " + me]), rp), d]]))
        elif k == 3:
            h.add(*l, "  static %s %s(%s) %s" % (rc, mn, params, body))
            probes.append(("entries(%s.%s.%s)" % (path, name, mn), [["%s%s -> %s" % (mn, s.text(), rp), d]]))
        elif k == 4:
            nn = h.id("Nest")
            h.add(*l, "  struct %s { int q = 1; };" % nn)
            probes.append(("%s.%s.%s.__doc__" % (path, name, nn), d if d else Pred("nothing", lambda v: v in (None, ""))))
        elif k == 5:
            op, special = r.choice([("+", "__add__"), ("-", "__sub__"), ("*", "__mul__"), ("/", "__truediv__"), ("%", "__mod__"), ("<", "__lt__"), ("&", "__and__")])
            if special in inner:
                continue
            inner.append(special)
            h.add(*l, "  int operator%s(const %s &o) const { return 1; }" % (op, name))
            probes.append(("entries(%s.%s.%s)" % (path, name, special), [["%s(self: %s, arg0: %s) -> int" % (special, me, me), d]]))
        elif k == 6:
            # members whose documentation is not exposed
            h.add(*l, "  int %s = 1;" % h.id("fld"))
            h.add(*documented(r)[0], "  static inline int %s = 1;" % h.id("st"))
        else:
            if "call" in inner:
                continue
            inner.append("call")
            h.add(*l, "  %s operator()(%s) const %s" % (rc, params, body))
            probes.append(("entries(%s.%s.__call__)" % (path, name), [["__call__%s -> %s" % (s.text(["self: " + me]), rp), d]]))
    h.add(r.choice(["", "  /// about nothing"]), "};" + r.choice(["", " ///< trailing text"]))
    h.add(*out_of_class)
    if r.random() < .4:
        l, d = documented(r)
        h.add(*l, "inline int operator^(const %s &a, int b) { return b; }" % name)
        probes.append(("entries(%s.%s.__xor__)" % (path, name), [["__xor__(self: %s, arg0: int) -> int" % me, d]]))
    h.add(*c)
    for p in probes:
        h.probe(*p)
    if not o:
        h.doc_types.append((name, me))
        h.doc_types.append(("const %s &" % name, me))


def templates(h):
    r = h.rng
    h.include("<string>")
    l, d = documented(r)
    k = r.randrange(4)
    t = r.choice(["int", "double"])
    py = {"int": "int", "double": "float"}[t]
    if k == 0:
        n = h.id("ft")
        h.add(*l, "template <typename T> GENPYBIND(visible) T %s(T arg) { return arg; }" % n)
        want = [["%s(arg: %s) -> %s" % (n, py, py), d]]
        if r.random() < .4:
            h.add("/// Explicit instantiation")
            want[0][1] = "Explicit instantiation" if False else d
            h.text.pop()
        h.add("template %s %s<%s>(%s);" % (t, n, t, t))
        if r.random() < .4:
            l2, d2 = documented(r, r.choice([0, 1]))
            d2 = d2 or d        # that of the primary template
            h.add(*l2, "template <> inline GENPYBIND(visible) bool %s<bool>(bool arg) { return arg; }" % n)
            want.append(["%s(arg: bool) -> bool" % n, d2])
        h.probe("entries(m.%s)" % n, sorted(want))
    else:
        n = h.id("Tpl")
        h.add(*l, "template <typename T> struct GENPYBIND(visible) %s {" % n)
        al = h.id("Al")
        me = "m.%s_%s_" % (n, t)
        l1, d1 = documented(r)
        l2, d2 = documented(r)
        l3, d3 = documented(r)
        h.add(*l1, "  T method(T arg) const { return arg; }")
        h.add(*l2, "  static int stat(const T &x) { return 1; }")
        h.add(*l3, "  %s(int a, T b) {}" % n)
        h.add("};")
        h.add("template struct %s<%s>;" % (n, t))
        h.probe("entries(%s.method)" % me, [["method(self: %s, arg: %s) -> %s" % (me, py, py), d1]])
        h.probe("entries(%s.stat)" % me, [["stat(x: %s) -> int" % py, d2]])
        h.probe("entries(%s.__init__)" % me, sorted([["__init__(self: %s, a: int, b: %s) -> None" % (me, py), d3], ["__init__(self: %s, : %s) -> None" % (me, me), ""]]))


def enums(h):
    r = h.rng
    o, c, path, qual = scope(h)
    h.add(*o)
    n = h.id("En")
    l, d = documented(r)
    h.add(*l, "enum %s GENPYBIND(visible) %s {" % (r.choice(["class", "", "struct"]), n))
    text = (d + "\n\n" if d else "") + "Members:"
    for i in range(r.randrange(1, 5)):
        e = "%s_e%d" % (n, i)
        k = r.random()
        if k < .4:
            l2, d2 = documented(r)
            h.add(*l2, "  %s%s," % (e, r.choice(["", " = %d" % (i + 5)])))
        elif k < .7:
            a, b = words(r)
            st = r.choice(["///< %s", "//!< %s", "/**< %s */", "/*!< %s */"])
            h.add("  %s, %s" % (e, st % (a.replace("*/", "* /") if "*" in st else a)))
            d2 = norm(b)
        else:
            h.add("  %s,%s" % (e, r.choice(["", " // ordinary", " /* ordinary */"])))
            d2 = ""
        text += "\n\n  " + e + (" : " + d2 if d2 else "")
    h.add("};")
    h.add(*c)
    h.probe("%s.%s.__doc__" % (path, n), text)


def decoys(h):
    """Documentation that belongs to nothing exposed."""
    r = h.rng
    l, _ = comment(r)
    n = h.id("dec")
    h.add(*[
        l + ["struct %s {};" % n],
        l + ["inline int %s = 3;" % n],
        l + ["using %s = int;" % n],
        l + ["GENPYBIND_MANUAL({ (void)parent; })"],
        l + ["namespace %s {}" % n],
        l + ["template <typename T> struct %s {};" % n],
        l + ["static_assert(true);"],
        l + ["enum { %s };" % n],
        l + [";"],
        l + ["extern int %s;" % n],
    ][r.randrange(10)])
    f = h.id("fn")
    h.add("inline void %s(int plain) GENPYBIND(visible);" % f, "inline void %s(int plain) {}" % f)
    h.probe("entries(m.%s)" % f, [["%s(plain: int) -> None" % f, ""]])


UNITS = [free_functions, classes, classes, templates, enums, decoys, free_functions]


def tasks(rng, tier):
    n = 56 if tier == "quick" else 1200
    return batch(rng, "docs", UNITS, n, 8, setup=[SETUP])
