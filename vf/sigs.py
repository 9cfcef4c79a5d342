"""Random C++ signatures whose bodies report what they were called with."""

FMT = r'''
namespace rec {
inline std::string s(bool v) { return v ? "T" : "F"; }
inline std::string s(int v) { return std::to_string(v); }
inline std::string s(unsigned v) { return std::to_string(v); }
inline std::string s(long v) { return std::to_string(v); }
inline std::string s(long long v) { return std::to_string(v); }
inline std::string s(unsigned long long v) { return std::to_string(v); }
inline std::string s(short v) { return std::to_string(v); }
inline std::string s(unsigned char v) { return std::to_string(v); }
inline std::string s(float v) { char b[64]; std::snprintf(b, sizeof b, "%g", v); return b; }
inline std::string s(double v) { char b[64]; std::snprintf(b, sizeof b, "%g", v); return b; }
inline std::string s(const std::string &v) { return "'" + v + "'"; }
inline std::string s(const char *v) { return v ? "'" + std::string(v) + "'" : "null"; }
template <typename T> std::string s(const std::vector<T> &v) { std::string r = "["; for (auto const &x : v) r += s(x) + ";"; return r + "]"; }
struct GENPYBIND(visible, expose_as(RecA)) A { int id; A(int id_) : id(id_) {} };
struct GENPYBIND(visible, expose_as(RecB)) B { int id; B(int id_) : id(id_) {} };
namespace inner { struct GENPYBIND(visible, expose_as(RecC)) C { int id; C(int id_) : id(id_) {} struct GENPYBIND(expose_as(D)) D { int id; D(int id_) : id(id_) {} }; };
enum class GENPYBIND(visible, expose_as(RecE)) E : int { zero, one, two }; }
inline std::string s(const A &v) { return "A" + std::to_string(v.id); }
inline std::string s(const B &v) { return "B" + std::to_string(v.id); }
inline std::string s(const inner::C &v) { return "C" + std::to_string(v.id); }
inline std::string s(const inner::C::D &v) { return "D" + std::to_string(v.id); }
inline std::string s(const A *v) { return v ? s(*v) : "nullA"; }
inline std::string s(inner::E v) { return "E" + std::to_string(static_cast<int>(v)); }
using AliasC = inner::C;
}
'''
INCLUDES = ["<string>", "<vector>", "<cstdio>"]


def _int(r):
    v = r.choice([0, 1, -1, 7, 42, -300, 1000, 2147483647, -2147483648, r.randrange(-10**6, 10**6)])
    return repr(v), str(v)


def _uint(r):
    v = r.choice([0, 1, 7, 65536, 4294967295, r.randrange(10**6)])
    return repr(v), str(v)


def _ll(r):
    v = r.choice([0, -1, 2**62, -2**63, 2**63 - 1, r.randrange(-10**12, 10**12)])
    return repr(v), str(v)


def _flt(r):
    v = r.choice([0.0, 0.5, -1.25, 1e10, 3.0, r.randrange(-1000, 1000) / 8])
    return repr(float(v)), "%g" % v


def _str(r):
    v = r.choice(["", "a", "héllo", "x y", "(,)", "long" * 9, "%d", "\\n"]) + str(r.randrange(100))
    return repr(v), "'%s'" % v


def _obj(cls, tag):
    def f(r):
        k = r.randrange(10000)
        return "m.%s(%d)" % (cls, k), "%s%d" % (tag, k)
    return f


def _enum(r):
    k = r.randrange(3)
    return "m.RecE.%s" % ["zero", "one", "two"][k], "E%d" % k


def _ints(r):
    v = [r.randrange(100) for _ in range(r.randrange(4))]
    return repr(v), "[%s]" % "".join("%d;" % x for x in v)


# category -> (spellings, argument generator)
CATS = {
    "int": (["int", "const int", "int const &"], _int),
    "uint": (["unsigned", "unsigned int const &"], _uint),
    "ll": (["long long", "const long long &"], _ll),
    "float": (["double", "const double &"], _flt),
    "str": (["std::string", "const std::string &", "const char *", "std::string const &", "char const *"], _str),
    "A": (["rec::A", "const rec::A &", "::rec::A &", "rec::A *", "const rec::A *"], _obj("RecA", "A")),
    "B": (["rec::B", "rec::B const &", "rec::B &"], _obj("RecB", "B")),
    "C": (["rec::inner::C", "const rec::inner::C &", "rec::AliasC &", "const rec::AliasC &"], _obj("RecC", "C")),
    "D": (["rec::inner::C::D", "const rec::inner::C::D &", "rec::AliasC::D &"], _obj("RecC.D", "D")),
    "enum": (["rec::inner::E", "const rec::inner::E", "rec::inner::E const &"], _enum),
    "ints": (["std::vector<int>", "const std::vector<int> &"], _ints),
}
NUMERIC = {"int", "uint", "ll", "enum"}


def klass(cat):
    """Categories pybind11 cannot tell apart without conversion."""
    return "number" if cat in NUMERIC else cat


class Param:
    def __init__(self, rng, cat, name):
        self.cat, self.name = cat, name
        self.type = rng.choice(CATS[cat][0])

    def decl(self):
        return "%s %s" % (self.type, self.name)

    def arg(self, rng):
        """(python expression, recorded text)"""
        return CATS[self.cat][1](rng)


def signature(rng, n=None, cats=None):
    n = rng.randrange(5) if n is None else n
    names = rng.sample(["a", "b", "value", "x", "y", "first", "count", "lhs", "rhs", "self_", "other", "name",
                        "context", "parent", "root", "arg0", "kw", "data_"], n)
    return [Param(rng, rng.choice(cats or list(CATS)), nm) for nm in names]


def overload_set(rng, n):
    """Signatures pybind11 can tell apart by exact types."""
    sigs, keys = [], set()
    for _ in range(n * 6):
        s = signature(rng, rng.randrange(4))
        k = tuple(klass(p.cat) for p in s)
        if k not in keys:
            keys.add(k)
            sigs.append(s)
        if len(sigs) == n:
            break
    return sigs


def body(tag, sig, extra=""):
    return "return std::string(\"%s\")%s%s;" % (tag, extra, "".join(" + \",\" + rec::s(%s)" % p.name for p in sig))


def decl_list(sig):
    return ", ".join(p.decl() for p in sig)


def call(rng, sig, tag, extra="", style=None):
    """(python argument list, expected record)"""
    vals = [p.arg(rng) for p in sig]
    text = tag + extra + "".join("," + t for _, t in vals)
    style = style or rng.choice(["pos", "kw", "mixed"])
    k = {"pos": len(sig), "kw": 0}.get(style)
    if k is None:
        k = rng.randrange(len(sig) + 1)
    kws = ["%s=%s" % (p.name, v) for p, (v, _) in list(zip(sig, vals))[k:]]
    rng.shuffle(kws)
    return ", ".join([v for v, _ in vals[:k]] + kws), text
