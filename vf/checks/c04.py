"""Omitted arguments take the value of the C++ default argument."""
import re

from ..engine import Exc, Pred
from ..gen import H

RULE = ("functions, methods, static methods, constructors, call operators, members and functions instantiated from templates "
        "with random default expressions (literals, constants, enumerators, calls, constructors, braces, casts, operators, "
        "conversions) over names that also exist in other scopes; what a Python call with omitted arguments received is "
        "compared with what the same call received in C++ and, where known, with the value itself; distinct by header text, "
        "non-trivial if calls with omitted arguments were compared")

WORLD = r'''
namespace rec {
inline std::string s(bool v) { return v ? "T" : "F"; }
inline std::string s(char v) { return "c" + std::to_string(static_cast<int>(v)); }
inline std::string s(short v) { return std::to_string(v); }
inline std::string s(unsigned short v) { return std::to_string(v); }
inline std::string s(signed char v) { return std::to_string(v); }
inline std::string s(unsigned char v) { return std::to_string(v); }
inline std::string s(int v) { return std::to_string(v); }
inline std::string s(unsigned v) { return std::to_string(v); }
inline std::string s(long v) { return std::to_string(v); }
inline std::string s(unsigned long v) { return std::to_string(v); }
inline std::string s(long long v) { return std::to_string(v); }
inline std::string s(unsigned long long v) { return std::to_string(v); }
inline std::string s(float v) { char b[64]; std::snprintf(b, sizeof b, "%.9g", v); return b; }
inline std::string s(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string s(const std::string &v) { std::string r = "'"; for (unsigned char c : v) r += c < 127 && c > 31 ? std::string(1, char(c)) : "<" + std::to_string(c) + ">"; return r + "'"; }
inline std::string s(const char *v) { return v ? s(std::string(v)) : "null"; }
inline std::string s(std::nullptr_t) { return "null"; }
}
// Entities of the same names as the ones meant: using them instead changes the value or does not compile.
inline int N = -777; inline int count(int = 0) { return -778; } inline int arr[3] = {-7, -8, -9}; inline int var = -779;
inline const char *text = "global"; inline int context = -780; inline int root = -781; inline int only_global = 123;
enum class SE { a = -50, b = -51, c = -52 };
struct GENPYBIND(visible, expose_as(GlobalA)) A { int v; A(int = 0, int = 0) : v(-700) {} int get() const { return -701; } static int sget() { return -702; } static constexpr int SC = -703; static constexpr int big = -704; };
struct Agg { int x = -1; int y = -1; };
struct Big { char c[2]; }; template <typename T> int sz() { return -93; }
inline int operator""_u(unsigned long long) { return -94; } inline std::string operator""_s(const char *, std::size_t) { return "wrong"; } template <char...> int operator""_t() { return -95; }
template <typename T> struct Tp { static constexpr int k = -90; static int s() { return -91; } };
namespace deep { inline int N = -55; struct D { int v = -56; }; inline D dd; }
namespace n {
inline constexpr int N = 5; inline int count(int k = 2) { return 50 + k; } inline int arr[3] = {1, 2, 3}; inline int var = 9; inline int *ptr = &var;
inline const char *text = "inner"; inline int context = 61; inline int root = 62; inline const std::string str = "str"; inline constexpr double PI = 3.25;
inline constexpr bool flag = true; inline constexpr unsigned long long huge = 1ull << 63;
enum class GENPYBIND(visible) SE { a, b = 4, c }; enum GENPYBIND(visible) UE { ua, ub = 6 };
struct GENPYBIND(visible) A { int v; A(int v_ = 1) : v(v_) {} int get() const { return v; } static int sget() { return 31; } static constexpr int SC = 32;
  inline static int SV = 33; static constexpr long long big = 1ll << 40; A operator+(const A &o) const { return A(v + o.v); } bool operator<(A o) const { return v < o.v; }
  A operator-() const { return A(-v); } int operator[](int i) const { return v + i; } int operator()(int i) const { return v * i; }
  enum GENPYBIND(visible) Inner { ia = 3 }; struct GENPYBIND(visible) Nest { int w = 8; static int ns() { return 9; } }; };
struct Conv { int c; operator int() const { return c + 1; } operator A() const { return A(c + 2); } };
struct GENPYBIND(visible) Agg { int x; int y; }; struct GENPYBIND(visible) AggD { int x = 3; Agg a{4, 5}; };
struct GENPYBIND(visible) Two { int x; std::string y; Two(int x_, std::string y_ = "dflt") : x(x_), y(y_) {} };
template <typename T> struct GENPYBIND(visible) Tp { T v; Tp(T v_ = T(7)) : v(v_) {} static int s() { return 71; } static constexpr int k = 72; };
template struct Tp<int>;
template <typename T> constexpr int vt = sizeof(T); template <typename T> int ft(T t) { return 100 + static_cast<int>(t); } template <int M> int fv() { return M; }
namespace deep { inline int N = 55; struct GENPYBIND(visible) D { int v; D(int v_) : v(v_) {} }; inline D dd{66}; inline const D *dp = &dd; inline int count() { return 56; } }
struct Big { char c[24]; template <typename T> int m() const { return 300 + sizeof(T); } template <typename T> static int sm(int k = 1) { return 400 + sizeof(T) + k; } };
template <typename T> int sz() { return sizeof(T); } template <typename T, typename... U> int pk() { return sizeof(T) + 10 * (0 + ... + sizeof(U)); }
template <SE e> int ev() { return 500 + static_cast<int>(e); } template <auto F> int through() { return F(); } template <const int *P> int deref() { return *P; }
template <template <typename> class X> int tt() { return sizeof(X<Big>); } template <typename T, T V> constexpr int tv = static_cast<int>(V);
inline int plain() { return 77; } inline constexpr int obj = 78; template <typename T> struct Wr { T t; static int size() { return 600 + sizeof(T); } template <typename U> int two() const { return 700 + sizeof(T) + sizeof(U); } };
namespace lit { inline int operator""_u(unsigned long long v) { return 800 + static_cast<int>(v); } inline double operator""_d(long double v) { return 2 * static_cast<double>(v); }
inline std::string operator""_s(const char *v, std::size_t k) { return std::string(v, k) + "!"; } inline std::string operator""_raw(const char *v) { return std::string("raw ") + v; }
inline int operator""_c(char v) { return v + 1; } template <char... C> int operator""_t() { return 900 + sizeof...(C); } inline A operator""_a(unsigned long long v) { return A(static_cast<int>(v)); } }
using lit::operator""_u; using lit::operator""_d; using lit::operator""_s; using lit::operator""_raw; using lit::operator""_c; using lit::operator""_t; using lit::operator""_a; using namespace std::string_literals;
using Alias = A; using DAlias = deep::D; namespace dp2 = deep; using deep::dd;
struct HasPtr { A a{12}; const A *p = &a; A as[2] = {A(1), A(2)}; A &ref() { return a; } }; inline HasPtr hp;
struct Vb { virtual int who() const { return 1; } virtual int pure() const = 0; virtual ~Vb() = default; }; struct Vm : Vb { int pure() const override { return 2; } int who() const override { return 3; } };
struct Vd : Vm { int who() const override { return 7; } int pure() const override { return 8; } }; inline Vd vd; using VmRef = const Vm &;
}
namespace rec {
inline std::string s(const n::A &v) { return "A" + std::to_string(v.v); }
inline std::string s(const n::A *v) { return v ? s(*v) : "nullA"; }
inline std::string s(const n::A::Nest &v) { return "Nest" + std::to_string(v.w); }
inline std::string s(const n::Agg &v) { return "Agg" + std::to_string(v.x) + "/" + std::to_string(v.y); }
inline std::string s(const n::AggD &v) { return "AggD" + std::to_string(v.x) + s(v.a); }
inline std::string s(const n::Two &v) { return "Two" + std::to_string(v.x) + v.y; }
template <typename T> std::string s(const n::Tp<T> &v) { return "Tp" + std::to_string(v.v); }
inline std::string s(const n::deep::D &v) { return "D" + std::to_string(v.v); }
inline std::string s(n::SE v) { return "SE" + std::to_string(static_cast<int>(v)); }
inline std::string s(n::UE v) { return "UE" + std::to_string(static_cast<int>(v)); }
inline std::string s(n::A::Inner v) { return "Inner" + std::to_string(static_cast<int>(v)); }
template <typename T> std::string s(const std::vector<T> &v) { std::string r = "["; for (auto const &x : v) r += s(x) + ";"; return r + "]"; }
template <typename T> std::string s(const std::optional<T> &v) { return v ? "some " + s(*v) : "none"; }
template <typename K, typename V> std::string s(const std::map<K, V> &v) { std::string r = "{"; for (auto const &x : v) r += s(x.first) + ":" + s(x.second) + ";"; return r + "}"; }
}
'''
INCLUDES = ["<string>", "<vector>", "<map>", "<optional>", "<limits>", "<cstdio>", "<cstddef>"]

# type, expression, expected record (None: only compared with C++)
TABLE = [
    ("int", "3", "3"), ("int", "-3", "-3"), ("int", "+4", "4"), ("int", "0x1F", "31"), ("int", "0b101", "5"), ("int", "1'000", "1000"),
    ("int", "017", "15"), ("long", "2147483648", "2147483648"), ("long long", "-9223372036854775807LL - 1", "-9223372036854775808"),
    ("unsigned", "-1", "4294967295"), ("unsigned", "~0", "4294967295"), ("unsigned", "~0u", "4294967295"), ("unsigned", "3", "3"),
    ("std::size_t", "-1", "18446744073709551615"), ("std::size_t", "std::string::npos", "18446744073709551615"),
    ("unsigned long long", "18446744073709551615ULL", "18446744073709551615"), ("unsigned long long", "huge", "9223372036854775808"),
    ("unsigned char", "200", "200"), ("unsigned char", "456", "200"), ("signed char", "-5", "-5"), ("short", "7", "7"),
    ("int", "3.7", "3"), ("int", "PI", "3"), ("int", "'a'", "97"), ("int", "'\\n'", "10"), ("char", "'x'", "c120"), ("char", "65", "c65"),
    ("char", "'\\''", "c39"), ("char", "'\\\\'", "c92"), ("int", '"abc"[1]', "98"),
    ("double", "3", "3"), ("double", "1e-3", "0.001"), ("double", "1.0 / 3", None), ("float", "0.1f", None), ("float", "1.1", None),
    ("double", "PI * 2", "6.5"), ("double", "-PI", "-3.25"), ("double", "std::numeric_limits<double>::infinity()", "inf"),
    ("double", "1e300", None), ("double", "0.1", None), ("float", "3", "3"), ("double", "123456789.123456789", None),
    ("bool", "true", "T"), ("bool", "false", "F"), ("bool", "1", "T"), ("bool", "N", "T"), ("bool", "!N", "F"), ("bool", "ptr", "T"),
    ("bool", "flag && N > 3", "T"), ("bool", "nullptr != ptr", "T"), ("bool", "A(1) < A(2)", "T"), ("bool", "2.5", "T"), ("bool", "flag", "T"),
    ("const char *", '"abc"', "'abc'"), ("const char *", '"a\\"b\\n\\\\"', "'a\"b<10>\\'"), ("const char *", '"tab\\t%s"', "'tab<9>%s'"),
    ("const char *", "nullptr", "null"), ("const char *", "0", "null"), ("const char *", "text", "'inner'"), ("const char *", "::text", "'global'"),
    ("const char *", '"con" "cat"', "'concat'"), ("const char *", '"h\\xc3\\xa9"', "'h<195><169>'"), ("const char *", '"???/"', "'???/'"),
    ("std::string", '"abc"', "'abc'"), ("std::string", '""', "''"), ("std::string", "{}", "''"), ("std::string", 'std::string("abc") + "d"', "'abcd'"),
    ("std::string", "std::string(3, 'z')", "'zzz'"), ("const std::string &", '"héllo"', "'h<195><169>llo'"), ("std::string", 'R"(a"b\\)"', "'a\"b\\'"),
    ("std::string", "str", "'str'"), ("const std::string &", "str", "'str'"), ("std::string", "{'a', 'b'}", "'ab'"), ("std::string", 'std::string{"q"}', "'q'"),
    ("std::string", "text", "'inner'"), ("std::string", "std::string{'x', 'y'}", "'xy'"), ("std::string", "str + text", "'strinner'"),
    ("int", "N", "5"), ("int", "n::N", "5"), ("int", "::n::N", "5"), ("int", "::N", "-777"), ("int", "only_global", "123"), ("int", "count()", "52"),
    ("int", "count(7)", "57"), ("int", "::count()", "-778"), ("int", "arr[1]", "2"), ("int", "*ptr", "9"), ("int", "var", "9"), ("int", "context", "61"),
    ("int", "root", "62"), ("int", "deep::N", "55"), ("int", "deep::count()", "56"), ("int", "deep::dd.v", "66"), ("int", "deep::dp->v", "66"), ("int", "dd.v", "66"),
    ("int", "dp2::N", "55"), ("int", "::deep::N", "-55"), ("int", "(N + 1) * 2 - count() % 3", "11"), ("int", "N > 3 ? 10 : 20", "10"),
    ("int", "N << 2 | 1", "21"), ("int", "~N", "-6"), ("int", "-N", "-5"), ("int", "(1, 2)", "2"), ("int", "sizeof(A)", "4"), ("int", "sizeof(N)", "4"),
    ("int", "alignof(AggD)", "4"), ("int", "sizeof(deep::D)", "4"), ("int", "static_cast<int>(SE::b)", "4"), ("int", "(int)SE::c", "5"), ("int", "int(SE::c)", "5"), ("int", "ub", "6"),
    ("unsigned", "ub", "6"), ("int", "ub | 8", "14"), ("int", "A::SC", "32"), ("int", "A::SV", "33"), ("long long", "A::big", str(1 << 40)),
    ("int", "A::sget()", "31"), ("int", "A(3).get()", "3"), ("int", "A{3}.get()", "3"), ("int", "A(3)[4]", "7"), ("int", "A(3)(4)", "12"),
    ("int", "::A(1).get()", "-701"), ("int", "::A::SC", "-703"), ("int", "::Tp<int>::k", "-90"),
    ("int", "Conv{4}", "5"), ("A", "Conv{4}", "A6"), ("int", "Tp<int>::s()", "71"), ("int", "Tp<char>::k", "72"), ("int", "vt<char>", "1"),
    ("int", "ft(3)", "103"), ("int", "ft<char>('a')", "197"), ("int", "fv<4>()", "4"), ("int", "std::numeric_limits<int>::max()", "2147483647"),
    ("int", "A::Nest().w", "8"), ("int", "A::Nest{}.w", "8"), ("int", "A::Nest::ns()", "9"), ("int", "std::vector<int>{1, 2, 3}.size()", "3"), ("int", "A(A(A(3))).v", "3"),
    ("int", "{}", "0"), ("int", "{4}", "4"), ("int", "int()", "0"), ("int", "int{4}", "4"), ("int", "[] { return 4; }()", "4"), ("int", "hp.as[1].v", "2"),
    ("int", "hp.p->get()", "12"), ("int", "hp.ref().get()", "12"), ("int", "A::ia", "3"), ("int", "static_cast<unsigned char>(300)", "44"),
    ("int", "*const_cast<int *>(&N)", "5"), ("int", "reinterpret_cast<unsigned long>(ptr) == reinterpret_cast<unsigned long>(&var) ? 3 : 4", "3"),
    ("int", "const_cast<A &>(static_cast<const A &>(hp.a)).get()", "12"), ("int", "dynamic_cast<const A *>(hp.p)->get()", "12"), ("int", "&arr[2] - arr", "2"),
    ("bool", "noexcept(plain())", "F"), ("bool", "std::is_same_v<A, Alias>", "T"), ("int", "(true ? A(1) : A(2)).v", "1"), ("double", "static_cast<double>(N) / 2", "2.5"),
    ("int", "sizeof arr / sizeof *arr", "3"), ("int", "sizeof(arr)", "12"), ("int", "alignof(double) + sizeof(char)", "9"), ("int", "(*&var)", "9"), ("int", "!!N + !0", "2"), ("int", "*(arr + 2)", "3"),
    ("int", "(hp.p)->v", "12"), ("int", "(*hp.p).v", "12"), ("bool", "N == 5 and not (N < 2)", "T"), ("int", "(hp.a).*(&A::v)", "12"), ("int", "hp.p->*&A::v", "12"), ("int", "((const int &)var)", "9"),
    ("int", "static_cast<const Vb &>(vd).pure()", "8"), ("int", "static_cast<const Vm &>(vd).who()", "7"), ("int", "((const Vm &)vd).who()", "7"), ("int", "VmRef(vd).who()", "7"),
    ("int", "static_cast<const Vd &>(static_cast<const Vb &>(vd)).who()", "7"), ("int", "dynamic_cast<const Vd &>((const Vb &)vd).pure()", "8"), ("int", "static_cast<Vm &&>(vd).who()", "7"),
    ("int", "static_cast<const Vm *>(&vd)->who()", "7"), ("int", "static_cast<Vm>(vd).who()", "3"), ("int", "vd.Vm::who()", None), ("int", "reinterpret_cast<const Vm &>(vd).pure()", "8"),
    ("int", "sz<Big>()", "24"), ("int", "sz<::Big>()", "2"), ("int", "sz<const Big>()", "24"), ("int", "sz<Big *>()", "8"), ("int", "sz<Wr<Big>>()", "24"),
    ("int", "pk<Big, char, Big>()", "274"), ("int", "pk<char>()", "1"), ("int", "ev<SE::b>()", "504"), ("int", "through<plain>()", "77"),
    ("int", "through<&plain>()", "77"), ("int", "deref<&obj>()", "78"), ("int", "tt<Wr>()", "24"), ("int", "tv<int, N>", "5"), ("int", "tv<int, N + 2>", "7"),
    ("int", "fv<N>()", "5"), ("int", "fv<N * 2 - 1>()", "9"), ("int", "fv<A::SC>()", "32"), ("int", "fv<sizeof(Big)>()", "24"), ("int", "Big().m<Big>()", "324"), ("int", "Big{}.m<A>()", "304"),
    ("int", "Big::sm<Big>()", "425"), ("int", "Big::sm<Alias>(N)", "409"), ("int", "Wr<Big>::size()", "624"), ("int", "Wr<A>().two<Big>()", "728"), ("int", "vt<Big>", "24"),
    ("int", "sz<deep::D>()", "4"), ("int", "ft<A::Inner>(A::ia)", "103"), ("int", "ev<static_cast<SE>(4)>()", "504"), ("int", "n::sz<n::Big>()", "24"), ("int", "sz<decltype(N)>()", "4"),
    ("int", "3_u", "803"), ("int", "3_u + 4_u", "1607"), ("double", "1.5_d", "3"), ("std::string", '"ab"_s', "'ab!'"), ("const std::string &", '"a\\"b"_s', "'a\"b!'"),
    ("std::string", '"ab"_s + "cd"_s', "'ab!cd!'"), ("std::string", "0x12_raw", "'raw 0x12'"), ("std::string", "1.50_raw", "'raw 1.50'"), ("int", "'x'_c", "121"), ("int", "123_t", "903"),
    ("A", "9_a", "A9"), ("A", "9_a + A(1)", "A10"), ("int", "9_a .get()", "9"), ("int", "-3_u", "-803"), ("std::string", '"abc"s', "'abc'"),
    ("A", "A(3) + A(4)", "A7"), ("A", "-A(3)", "A-3"), ("A", "3", "A3"), ("A", "N", "A5"), ("A", "{}", "A1"), ("A", "{3}", "A3"), ("A", "A{}", "A1"), ("A", "A()", "A1"),
    ("A", "Alias(6)", "A6"), ("const A &", "A(6)", "A6"), ("const A &", "hp.a", "A12"), ("const A &", "8", "A8"),
    ("const A *", "nullptr", "nullA"), ("A *", "0", "nullA"), ("const A &", "*hp.p", "A12"), ("const A &", "hp.as[1]", "A2"), ("A", "n::A(4)", "A4"),
    ("A", "N > 3 ? A(1) : A(2)", "A1"), ("A", "static_cast<A>(N)", "A5"), ("A", "(A)9", "A9"), ("A", "A(N)", "A5"), ("A", "A{N + 1}", "A6"),
    ("Agg", "{1, 2}", "Agg1/2"), ("Agg", "Agg{1, 2}", "Agg1/2"), ("Agg", "{}", "Agg0/0"), ("Agg", "{N, N + 1}", "Agg5/6"), ("Agg", "Agg{1}", "Agg1/0"),
    ("AggD", "{}", "AggD3Agg4/5"), ("AggD", "AggD()", "AggD3Agg4/5"), ("AggD", "{7}", "AggD7Agg4/5"), ("AggD", "{1, {2, 3}}", "AggD1Agg2/3"),
    ("AggD", "AggD{1, Agg{2, 3}}", "AggD1Agg2/3"), ("Two", "Two(1)", "Two1dflt"), ("Two", '{2, "x"}', "Two2x"), ("Two", 'Two(3, "y")', "Two3y"), ("Two", "Two{4}", "Two4dflt"), ("Two", "5", "Two5dflt"),
    ("Tp<int>", "Tp<int>()", "Tp7"), ("Tp<int>", "Tp<int>(4)", "Tp4"), ("Tp<int>", "{}", "Tp7"), ("Tp<int>", "5", "Tp5"), ("Tp<int>", "Tp<int>{6}", "Tp6"),
    ("DAlias", "DAlias(4)", "D4"), ("deep::D", "{4}", "D4"), ("deep::D", "deep::dd", "D66"), ("deep::D", "N", "D5"), ("A::Nest", "{}", "Nest8"), ("A::Nest", "A::Nest()", "Nest8"),
    ("SE", "SE::b", "SE4"), ("SE", "static_cast<SE>(4)", "SE4"), ("SE", "SE(5)", "SE5"), ("SE", "{}", "SE0"), ("SE", "SE{}", "SE0"), ("UE", "ub", "UE6"), ("UE", "UE(0)", "UE0"), ("A::Inner", "A::ia", "Inner3"),
    ("std::vector<int>", "{}", "[]"), ("std::vector<int>", "{1, 2, 3}", "[1;2;3;]"), ("std::vector<int>", "std::vector<int>{1, 2}", "[1;2;]"),
    ("std::vector<int>", "std::vector<int>(2, 9)", "[9;9;]"), ("const std::vector<int> &", "{N, count()}", "[5;52;]"), ("std::vector<std::string>", '{"a", "bc"}', "['a';'bc';]"),
    ("std::vector<A>", "{A(1), A(2)}", "[A1;A2;]"), ("std::vector<A>", "{1, {2}}", "[A1;A2;]"), ("std::vector<std::vector<int>>", "{{1, 2}, {}, {3}}", "[[1;2;];[];[3;];]"),
    ("std::map<int, std::string>", '{{1, "x"}, {N, "y"}}', "{1:'x';5:'y';}"), ("std::optional<int>", "std::nullopt", "none"), ("std::optional<int>", "5", "some 5"),
    ("std::optional<int>", "{}", "none"), ("std::optional<std::string>", '"q"', "some 'q'"),
]
# Something of the parameter type that differs from the defaults.
GIVEN = {"int": ("987", "987"), "A": ("m.A(987)", "A987"), "std::string": ("'given'", "'given'"), "double": ("98.5", "98.5"),
         "Agg": ("m.Agg()", None), "unsigned": ("987", "987"), "const std::string &": ("'given'", "'given'"), "const A &": ("m.A(987)", "A987"),
         "const char *": ("'given'", "'given'"), "std::vector<int>": ("[9, 8]", "[9;8;]"), "const A *": ("m.A(987)", "A987"), "std::size_t": ("987", "987")}


def params(h, lead):
    """[(type, name, default or None, expected)] with trailing defaults."""
    r = h.rng
    n = r.randrange(1, 4)
    names = r.sample(["p", "q", "value", "x", "other", "self_", "ctx", "k"], n + lead)
    out = [("int", names[i], None, None) for i in range(lead)]
    for i in range(n):
        t, e, w = r.choice(TABLE)
        out.append((t, names[lead + i], e, w))
    return out


def plist(ps, names=True, defaults=True):
    return ", ".join("%s %s%s" % (t, n if names else "", " = " + d if d is not None and defaults else "") for t, n, d, _ in ps)


def rec(ps):
    return "return std::string(\"r\")" + "".join(" + \",\" + rec::s(%s)" % n for _, n, _, _ in ps) + ";"


def calls(h, ps, py, cpp, tag):
    """Probes for one callable; returns the C++ text of the reference calls."""
    r = h.rng
    lead = [p for p in ps if p[2] is None]
    out = []
    for k in range(len(lead), len(ps) + 1):
        given, text, ok = [], "r", True
        for i, (t, n, d, w) in enumerate(ps[:k]):
            if d is None:
                v = r.randrange(1000)
                given.append((n, str(v), str(v)))
                text += ",%d" % v
            else:
                g = GIVEN.get(t)
                if g is None or g[1] is None:
                    ok = False
                    break
                given.append((n, g[0], g[1]))
                text += "," + g[1]
        if not ok:
            break
        want = text
        for _, _, _, w in ps[k:]:
            want = None if w is None or want is None else want + "," + w
        style = r.choice(["pos", "kw"])
        args = ", ".join(v if style == "pos" else "%s=%s" % (n, v) for n, v, _ in given)
        if k == len(lead):
            # the same call, in C++
            name = "ref_%s" % tag
            out.append("GENPYBIND(visible) inline std::string %s() { %s }" % (name, cpp(", ".join(v for _, v, _ in given))))
            h.probe("[%s, %s == m.%s()]" % (py(args), py(args), name), [want, True] if want is not None else AnyTrue())
            if lead:
                h.probe(py(", ".join(v for _, v, _ in given[:-1])), Exc("TypeError"), "mandatory parameter")
        elif want is not None:
            h.probe(py(args), want, "given arguments")
    # a later default overridden by name, earlier ones omitted
    last = ps[-1]
    g = GIVEN.get(last[0])
    if g and g[1] is not None and last[2] is not None and all(p[2] is None or p[3] is not None for p in ps[:-1]):
        pos = [str(r.randrange(1000)) for _ in lead]
        want = "r" + "".join("," + v for v in pos) + "".join("," + p[3] for p in ps[len(lead):-1]) + "," + g[1]
        h.probe(py(", ".join(pos + ["%s=%s" % (last[1], g[0])])), want, "overridden by name")
    return out


def AnyTrue():
    return Pred("[the same record as in C++, true]", lambda v: v[1] is True and isinstance(v[0], str))


def fn(h):
    r, f = h.rng, h.id("fn")
    lead = r.choice([0, 0, 1, 2])
    ps = params(h, lead)
    style = r.randrange(4)
    h.add("namespace n {")
    q = "noexcept(false) " if r.random() < .1 else ""
    if style == 0:
        # defaults in an earlier declaration
        h.add("GENPYBIND(visible) inline std::string %s(%s) %s;" % (f, plist(ps), q),
              "inline std::string %s(%s) %s{ %s }" % (f, plist(ps, defaults=False), q, rec(ps)))
    elif style == 1 and len(ps) - lead >= 2:
        # defaults added one by one
        h.add("GENPYBIND(visible) inline std::string %s(%s);" % (f, plist(ps[:-1], defaults=False) + ", " + plist(ps[-1:])),
              "inline std::string %s(%s);" % (f, plist(ps[:-1]) + ", " + plist(ps[-1:], names=r.random() < .5, defaults=False)),
              "inline std::string %s(%s) { %s }" % (f, plist(ps, defaults=False), rec(ps)))
    else:
        h.add("GENPYBIND(visible) inline std::string %s(%s) %s{ %s }" % (f, plist(ps), q, rec(ps)))
    h.add(*calls(h, ps, lambda a: "m.%s(%s)" % (f, a), lambda a: "return %s(%s);" % (f, a), f))
    h.add("}")


CLASS_ITEMS = ("static constexpr int N = 205; static int count(int k = 2) { return 250 + k; } enum CE { ce = 206 }; "
               "struct Loc { int v = 207; Loc() {} Loc(int v_) : v(v_) {} int get() const { return v; } }; inline static int var = 208; "
               "typedef Loc LocAlias; static Loc make(int v) { return Loc(v); }")
CLASS_TABLE = [("int", "N", "205"), ("int", "count()", "252"), ("int", "count(N)", "455"), ("int", "ce", "206"), ("int", "Loc().v", "207"),
               ("int", "Loc{4}.get()", "4"), ("int", "var", "208"), ("int", "n::N", "5"), ("int", "::N", "-777"), ("int", "LocAlias(6).v", "6"),
               ("int", "make(N).v", "205"), ("int", "sizeof(Loc)", "4"), ("bool", "N == 205", "T"), ("int", "N + n::count()", "257"),
               ("A", "N", "A205"), ("A", "A(var)", "A208"), ("std::vector<int>", "{N, ce, var}", "[205;206;208;]")]


def shadowed(expr):
    """Does the expression mean something else inside the class?"""
    return expr is not None and re.search(r"(?<![\w:.>])(N|count|var)\b", expr) is not None


def members(h):
    r, c = h.rng, h.id("Cls")
    kinds = r.sample(["method", "cmethod", "static", "ctor", "call", "outside", "virtual"], r.randrange(1, 4))
    h.add("namespace n {", "struct GENPYBIND(visible) %s { %s std::string log; struct Tag_ {};" % (c, CLASS_ITEMS), "%s(Tag_) {}" % c)
    h.add("GENPYBIND(visible) static %s create_() { return %s(Tag_()); }" % (c, c))
    after, refs = [], []
    for k in kinds:
        f = h.id("me")
        ps = params(h, r.choice([0, 1]))
        for i, p in enumerate(ps):
            # names found in the class first
            inner = shadowed(p[2])
            if p[2] is not None and (inner or r.random() < .5):
                t, e, w = r.choice(CLASS_TABLE)
                ps[i] = (t, p[1], e, w)
        if k == "ctor":
            ps = [("int", "first_", None, None)] + ps
            h.add("%s(%s) { log = [&]() -> std::string { %s }(); }" % (c, plist(ps), rec(ps)))
            refs += calls(h, ps, lambda a: "m.%s(%s).log" % (c, a), lambda a: "return %s(%s).log;" % (c, a), f)
            continue
        if k == "call":
            ps = [("const std::string &", "tag_", None, None)] + ps
            h.add("std::string operator()(%s) { %s }" % (plist(ps), rec(ps).replace("rec::s(tag_)", '"0"')))
            # the leading parameter is a string here
            want = "r,0" + "".join("," + (p[3] or "") for p in ps[1:])
            if all(p[2] is not None and p[3] is not None for p in ps[1:]):
                h.probe("m.%s.create_()('x')" % c, want)
                h.probe("m.%s.create_()()" % c, Exc("TypeError"))
            continue
        q = {"cmethod": "const ", "virtual": "const "}.get(k, "")
        st = {"static": "static ", "virtual": "virtual "}.get(k, "")
        if k == "outside":
            h.add("std::string %s(%s);" % (f, plist(ps)))
            after.append("inline std::string %s::%s(%s) { %s }" % (c, f, plist(ps, defaults=False), rec(ps)))
        else:
            h.add("%sstd::string %s(%s) %s{ %s }" % (st, f, plist(ps), q, rec(ps)))
        if k == "static":
            refs += calls(h, ps, lambda a, f=f: "m.%s.%s(%s)" % (c, f, a), lambda a, f=f: "return %s::%s(%s);" % (c, f, a), f)
        else:
            refs += calls(h, ps, lambda a, f=f: "m.%s.create_().%s(%s)" % (c, f, a), lambda a, f=f: "return %s::create_().%s(%s);" % (c, f, a), f)
    h.add("};", *after)
    h.add(*refs)
    h.add("}")


def class_template(h):
    """Defaults that depend on the template arguments."""
    r, t = h.rng, h.id("Tpl")
    table = [("T", "T()", {"int": "0", "double": "0", "A": "A1"}), ("T", "T(4)", {"int": "4", "double": "4", "A": "A4"}), ("T", "{}", {"int": "0", "double": "0", "A": "A1"}),
             ("int", "N", "5"), ("int", "sizeof(T)", {"int": "4", "double": "8", "A": "4"}), ("int", "K", "K"), ("int", "K * 2", "K2"),
             ("int", "Tp<int>::k", "72"), ("std::vector<T>", "{}", "[]"), ("std::vector<T>", "{T(1), T(2)}", {"int": "[1;2;]", "double": "[1;2;]", "A": "[A1;A2;]"}),
             ("int", "static_cast<int>(sizeof(std::vector<T>) > 1)", "1"), ("int", "own", "77"), ("int", "make(3)", "83"), ("T", "value_type(6)", {"int": "6", "double": "6", "A": "A6"}),
             ("std::string", '"lit"', "'lit'"), ("bool", "K > 3", "KB"), ("A", "K", "KA")]
    items = [r.choice(table) for _ in range(r.randrange(1, 5))]
    ctor = r.choice([None, ("int", "K + 1", "K1"), ("int", "static_cast<int>(sizeof(T))", {"int": "4", "double": "8", "A": "4"})])
    inherit = r.random() < 0.5  # Visible by the default of its scope.
    h.add("namespace n {", "namespace GENPYBIND(visible) nv_%s {" % t if inherit else "namespace nv_%s {" % t,
          "template <typename T, int K> struct %s %s {" % ("" if inherit else "GENPYBIND(visible)", t), "using value_type = T; static constexpr int own = 77; "
          "static int make(int v) { return v + 80; } int made;")
    if ctor:
        h.add("%s(int made_ = %s) : made(made_) {}" % (t, ctor[1]))
    else:
        h.add("%s() : made(0) {}" % t)
    for i, (ty, e, _) in enumerate(items):
        h.add("%sstd::string f%d(int a, %s p = %s) %s{ (void)a; return rec::s(p); }" % ("", i, ty, e, r.choice(["", "const "])))
        h.add("static std::string g%d(%s p = %s) { return rec::s(p); }" % (i, ty, e))
    h.add("};")
    for ty, k in r.sample([("int", 3), ("double", 6), ("A", 9), ("int", 12)], r.randrange(1, 4)):
        py = "%s_%d" % (t, k)
        how = r.randrange(4)
        if how < 2:
            h.add("template struct GENPYBIND(expose_as(%s)) %s<%s, %d>;" % (py, t, ty, k))
        elif how == 2:
            h.add("using %s GENPYBIND(expose_here) = %s<%s, %d>;" % (py, t, ty, k))
        else:  # Instantiated by being used.
            h.add("GENPYBIND(visible) inline %s<%s, %d> use_%s() { return %s<%s, %d>(); }" % (t, ty, k, py, t, ty, k))

        def val(w):
            if isinstance(w, dict):
                return w[ty]
            return {"K": str(k), "K2": str(k * 2), "KB": "T" if k > 3 else "F", "KA": "A%d" % k, "K1": str(k + 1)}.get(w, w)
        py = "type(m.use_%s())" % py if how == 3 else "m." + py
        if ctor:
            h.probe("str(%s().made)" % py, val(ctor[2]))
            h.probe("%s(17).made" % py, 17)
        for i, (_, _, w) in enumerate(items):
            h.probe("[%s().f%d(1), %s.g%d()]" % (py, i, py, i), [val(w), val(w)])
            h.probe("%s().f%d()" % (py, i), Exc("TypeError"))
    h.add("}", "}")


def function_template(h):
    r, f = h.rng, h.id("ftpl")
    table = [("T()", {"int": "0", "double": "0", "A": "A1"}), ("T(N)", {"int": "5", "double": "5", "A": "A5"}), ("T(7)", {"int": "7", "double": "7", "A": "A7"}),
             ("{}", {"int": "0", "double": "0", "A": "A1"}), ("T(count())", {"int": "52", "double": "52", "A": "A52"})]
    e, w = r.choice(table)
    more = r.choice(["", ", int k = N", ", int k = sizeof(T)", ", int k = A::SC"])
    member = r.random() < .4
    sig = "std::string %s(int a, T p = %s%s)" % (f, e, more)
    body = "{ (void)a; return rec::s(p)%s; }" % (' + "/" + rec::s(k)' if more else "")
    h.add("namespace n {")
    if member:
        h.add("struct GENPYBIND(visible) S_%s { template <typename T> %s%s %s };" % (f, r.choice(["", "static "]), sig, body))
    else:
        h.add("template <typename T> GENPYBIND(visible) %s %s" % (sig, body))
    ty = r.choice(["int", "double", "A"])
    h.add("template std::string %s%s(int, %s%s);" % ("S_%s::" % f if member else "", f, ty, ", int" if more else ""))
    h.add("}")
    k = {"": "", ", int k = N": "/5", ", int k = sizeof(T)": "/%d" % {"int": 4, "double": 8, "A": 4}[ty], ", int k = A::SC": "/32"}[more]
    o = "m.S_%s()." % f if member else "m."
    h.probe("%s%s(1)" % (o, f), w[ty] + k)
    h.probe("%s%s(a=1)" % (o, f), w[ty] + k)
    h.probe("%s%s()" % (o, f), Exc("TypeError"))
    if more:
        h.probe("%s%s(1, k=99)" % (o, f), w[ty] + "/99")


def noconvert_default(h):
    """A default argument also reaches a parameter that forbids conversions."""
    r, f = h.rng, h.id("nc")
    t, e, w = r.choice([("double", "3", "3"), ("int", "'a'", "97"), ("A", "3", "A3"), ("bool", "1", "T"), ("std::string", '"q"', "'q'"), ("unsigned", "3", "3"), ("const A &", "N", "A5")])
    h.add("namespace n { GENPYBIND(visible, noconvert(p)) inline std::string %s(%s p = %s) { return rec::s(p); } }" % (f, t, e))
    h.probe("m.%s()" % f, w)


def scopes(h):
    """One name in many scopes: each function means its own."""
    r = h.rng
    name = h.id("nm")
    lines, depth = ["inline constexpr int %s = 0;" % name], r.randrange(1, 4)
    if r.random() < .4:
        lines = []
    k = 0
    mod = []
    for d in range(depth):
        ns = h.id("sc")
        k += 1
        m = r.random() < .4
        mod = mod + [ns] if m else mod
        lines.append("namespace %s %s { inline constexpr int %s = %d;" % (ns, "GENPYBIND(module)" if m else "", name, k))
        f = h.id("fs")
        refs = [(name, k), ("::" + name, 0)] if lines[0].startswith("inline") else [(name, k)]
        refs += [("%s + 100" % name, k + 100), ("(%s)" % name, k)]
        e, w = r.choice(refs)
        lines.append("GENPYBIND(visible) inline int %s(int a = %s) { return a; }" % (f, e))
        h.probe("%s()" % ".".join(["m"] + mod + [f]), w)
        if r.random() < .5:
            c = h.id("Sc")
            lines.append("struct GENPYBIND(visible) %s { static constexpr int %s = %d; static int f(int a = %s) { return a; } int g(int a = ::%s::%s) const { return a; } };" % (
                c, name, k + 50, name, "::".join(l.split()[1] for l in lines if l.startswith("namespace")), name))
            h.probe("[%s.f(), %s().g()]" % ((".".join(["m"] + mod + [c]),) * 2), [k + 50, k])
    h.add(*lines)
    h.add("}" * depth)


UNITS = [fn, fn, fn, members, members, class_template, function_template, noconvert_default, scopes]


def tasks(rng, tier):
    out, order = [], []
    n = 48 if tier == "quick" else 1500
    for i in range(n):
        h = H(rng, INCLUDES)
        h.add(WORLD)
        for _ in range(9):
            if not order:
                order = list(UNITS)
                rng.shuffle(order)
            u = order.pop()
            h.feature(u.__name__)
            u(h)
        out.append(h.case("defaults/%d" % i))
    # every entry of the table once
    idx = list(range(len(TABLE)))
    rng.shuffle(idx)
    for j in range(0, len(idx), 24):
        h = H(rng, INCLUDES)
        h.add(WORLD, "namespace n {")
        for k in idx[j:j + 24]:
            t, e, w = TABLE[k]
            h.add("GENPYBIND(visible) inline std::string t%d(%s p = %s) { return rec::s(p); }" % (k, t, e),
                  "GENPYBIND(visible) inline std::string r%d() { return t%d(); }" % (k, k))
            h.probe("[m.t%d(), m.t%d() == m.r%d()]" % (k, k, k), [w, True] if w is not None else AnyTrue(), "%s = %s" % (t, e))
        h.add("}")
        h.feature("table")
        out.append(h.case("table/%d" % j))
    return out
