"""The tool never crashes or corrupts memory."""
import glob
import hashlib
import os
import re
import shutil

from .. import build
from ..check import FuncTask, Result
from ..gen import H, PRE
from ..world import World
from . import c11, c15, c16, c19

RULE = ("the tool (ASan, UBSan, assertions) runs on unusual but legal declarations with random annotations in random scopes, on programs of the "
        "other checks, on byte-, token- and line-level mutations, truncations and splices of all of these and of the headers in the repository, on "
        "arbitrary bytes, pragmas, generated extremes and option lists; a report, abnormal exit, hang, silent failure or missing output is a "
        "violation unless plain clang fails on the same input; distinct by input and options, non-trivial if the tool got to an exit status")
NEED_BINDINGS = False

# @ stands for an optional annotation, $ for a unique suffix.
EXOTIC = r'''
struct @ A$;
struct @ A$; struct @ A$; struct A$ {};
struct @ A$ { @ A$(A$ &&) = delete; @ A$ &operator=(const A$ &) @ = delete; @ ~A$() = default; };
struct @ A$ { @ ~A$() = delete; @ int f() const &; @ int f() const &&; };
struct @ A$ { private: @ A$(); friend struct B$; @ friend void ff$(A$); @ friend bool operator==(A$, A$) { return true; } };
struct @ A$ { template <typename T> friend struct B$; template <typename T> @ friend void g$(T); };
union @ U$ { @ int a @; float b; U$() {} @ ~U$() {} struct { int p, q; } @; };
!union @ { int ua$; float ub$; };
static union @ { int ua$; float ub$; };
struct @ A$ { @ union { @ int x; float y; }; @ struct { int z; }; };
struct @ A$ { @ struct { int x; } s @; @ struct { int x; } t[3]; };
struct @ { int x; } anon_var$ @;
typedef struct @ { int x; @ void f(); } Named$ @;
typedef enum @ { e1_$, e2_$ @ } NamedE$ @;
enum @ { ue$ @ };
enum @ E$ : unsigned char;
enum class @ E$; enum class @ E$ { a @, b @ = 5 };
enum class @ E$ : bool { no @, yes };
enum class @ E$ : unsigned long long { big @ = 18446744073709551615ULL };
enum class @ E$ : __int128 { big @ = -1 };
enum @ E$ {};
enum @ E$ : signed char { neg$ @ = -128 };
@ int arr$[4] = {1, 2, 3, 4};
@ extern int inc$[];
@ const char *const str$ = "x";
@ inline constexpr double dbl$ = 1e300;
@ inline int &ref$ = *new int;
@ static int st$;
@ thread_local int tl$;
@ auto lam$ = [](int x) { return x; };
@ inline constexpr auto glam$ = [](auto... x) { return sizeof...(x); };
@ auto af$() { struct L { int x; }; return L{}; }
@ decltype(auto) daf$(int &x) { return (x); }
@ auto trail$(int a @, int b) -> decltype(a + b);
template <typename T> @ T tf$(T t @) { return t; } template <> @ int tf$(int t @); template @ double tf$<double>(double);
template <typename... T> @ void pack$(T... t @) {} template void pack$<int, char>(int, char);
template <typename T> @ struct T$ { @ T x; @ void f(T t @); struct @ In { T y; }; enum @ E { e @ = sizeof(T) }; }; template struct @ T$<int>; template <> struct @ T$<char> {}; extern template struct @ T$<long>;
template <typename T> struct @ T$; template <> struct @ T$<int>; template <> struct T$<int> { @ int x; };
!template <typename T, typename U = T> struct @ T$ { typename T::nope x; }; using A$ @ = T$<int>;
template <typename T> struct @ T$ : T { using T::T; }; struct Bs$ { Bs$(int); }; template struct @ T$<Bs$>;
template <typename T> struct @ T$ { T$<T *> *p; @ T$<T> self(); }; template struct T$<int>;
template <int N> struct @ F$ { static constexpr int v @ = N * F$<N - 1>::v; }; template <> struct F$<0> { static constexpr int v = 1; }; using F5$ @ = F$<5>; template struct @ F$<6>;
!template <int N> struct @ R$ { R$<N + 1> r; }; template struct @ R$<0>;
template <template <typename> class C> struct @ TT$ { C<int> c; }; template <typename T> struct @ V$ {}; template struct @ TT$<V$>;
template <auto V> struct @ AU$ { @ static constexpr auto v = V; }; template struct @ AU$<'c'>; template struct AU$<nullptr>; template struct AU$<true>; int gi$; template struct @ AU$<&gi$>;
template <typename... T> struct @ P$ { @ void f(T... t @); }; template struct @ P$<>; template struct @ P$<int, double>;
template <typename T, T... I> struct @ IS$ {}; template struct @ IS$<int, 1, 2, 3>;
template <typename T> struct @ Crtp$ { @ int f() { return static_cast<T *>(this)->g(); } }; struct @ D$ : Crtp$<D$> { @ int g(); };
!template <typename T> using @ AT$ = T *;
!template <typename T> using AT2$ @ = T;
template <typename T> @ constexpr T vt$ = T(3); template @ constexpr int vt$<int>;
template <typename T> concept Cn$ = requires(T t) { t.x; }; template <Cn$ T> @ void cf$(T); @ void ca$(Cn$ auto t @); template <typename T> struct @ CS$ { @ void f() requires (sizeof(T) > 1); @ void f() requires (sizeof(T) <= 1); }; template struct @ CS$<int>;
template <typename T> struct @ G$ { G$(T); }; template <typename T> @ G$(T) -> G$<T>;
!using @ Fn$ = int(int); using Fp$ @ = int (*)(int); using Mp$ @ = int (Fn$);
!typedef int @ Arr$[3]; typedef int (*Pa$)[3] @;
struct @ A$ { @ int f() const volatile; @ int A$::*pm; @ int (A$::*pf)(int) const; @ static A$ *inst; };
struct @ A$ { @ int b : 3 @; int : 0; @ unsigned c : 5 = 3; @ mutable int m; @ const int k = 3; @ int &r; A$(int &); @ volatile int v; };
struct @ A$ { @ static constexpr int si = 4; @ static inline int sj; @ static const int sk; @ static int arr[3]; };
struct @ A$ { @ int flex[0]; };
struct @ A$ { int n; @ char flex[]; };
struct @ A$ { @ operator int() const; @ explicit operator bool() const; template <typename T> @ operator T *() const; @ operator A$ &(); };
struct @ A$ { @ A$ &operator++(); @ A$ operator++(int); @ A$ operator-() const; @ A$ &operator+=(const A$ &o @); @ A$ operator+(const A$ &) const; @ int operator[](int i @) const; @ int operator()(int a @ = 3, ...) const; @ A$ *operator->(); @ A$ operator*() const; @ int operator,(int); @ A$ operator&(); @ bool operator!() const; @ A$ operator~(); @ bool operator&&(bool); };
struct @ A$ { @ int operator<=>(const A$ &) const; @ bool operator==(const A$ &) const = default; };
struct @ A$ { @ void *operator new(__SIZE_TYPE__); @ void operator delete(void *) @; void *operator new[](__SIZE_TYPE__) = delete; };
@ int operator""_lit$(unsigned long long x @); @ long double operator""_ld$(long double);
@ A0 operator+(A0 a, A0 b); @ A0 &operator<<(A0 &, int); @ bool operator==(A0, int); @ A0 operator-(A0); @ A0 operator-(A0, A0); @ void operator+(A0, A1); @ void operator+(E0, E0);
struct @ A$ : A0 { using A0::A0; using A0::f0; @ A$(int, ...); };
struct @ A$ : virtual A0, private A1 { @ void f0(); };
struct @ A$ { virtual void p() @ = 0; virtual ~A$() @ = 0; }; struct @ B$ final : A$ { @ void p() override final; };
class @ C$ { @ int priv; protected: @ int prot; struct @ Nest {}; enum @ NE { ne }; public: @ int pub; @ Nest get(); };
struct @ A$ { struct @ B { struct @ C { struct @ D { enum @ E { e }; }; }; }; };
struct @ A$ { using Self @ = A$; Self *p; using Int = int; typedef A0 @ TA; };
struct @ A$ { struct In; @ In *f(); }; struct @ A$::In { int x; };
struct @ A$ { template <typename T> struct @ MT { T x; }; template <typename T> @ void mt(T t @) {} }; template struct @ A$::MT<int>; template void A$::mt<int>(int);
template <typename T> struct @ O$ { template <typename U> struct @ I { T t; U u; @ void f(U); }; }; template struct @ O$<int>::I<char>; template <typename T> template <typename U> void O$<T>::I<U>::f(U) {}
namespace @ n$ { @ void f(); } namespace n$ @ { @ void g(); } namespace al$ = n$;
namespace @ n$ { inline namespace @ v1 { struct @ S {}; } namespace @ { struct @ H {}; @ int anon; } }
namespace { struct @ AN$ {}; @ void anf$(); }
inline namespace @ in$ { @ void inf$(); struct @ S$ {}; }
namespace a$::b::inline c { struct @ S {}; } using namespace a$; using a$::b::S; using SS$ @ = a$::b::c::S;
!using @ enum E0; using E0::e0a;
extern "C" { @ void ec$(int, ...); struct @ EC$ { int x; }; } extern "C" @ int ec2$;
extern "C++" { namespace ex$ @ { struct @ S {}; } }
@ void variadic$(int a @, ...); @ void va$(__builtin_va_list);
@ void noret$ [[noreturn]] (); [[deprecated("x")]] @ void dep$(); @ [[nodiscard]] int nd$();
@ void def$(int a @ = [] { return 3; }(), A0 b = {}, A0 c = A0{}, int d = sizeof(A0), const char *e = "a\"b\\", int *f = nullptr, E0 g = E0::e0b);
@ void def2$(int = 1, int = 2); @ void def2$(int, int); @ void redecl$(int a); @ void redecl$(int b = 3); @ void redecl$(int);
@ void fnp$(int (*cb)(int), int (&arr)[3], int &&rv @, A0 *const p, const A0 &, A0 &&, volatile int *);
@ void exc$() noexcept; @ void exc2$() noexcept(sizeof(int) == 4) @; @ consteval int ce$() { return 1; } @ constexpr int cx$() { return 1; }
@ int kw$(int lambda, int None, int def, int self, int _, int __x__);
@ void unnamed$(int, A0, E0);
@ void sig$(A0 (&)(A1), A0 (A1::*)(int) const, A0 *[], decltype(nullptr), __int128, _Complex double, char8_t, wchar_t, _Float16);
@ void vec$(int __attribute__((vector_size(16))) v);
static_assert(sizeof(A0) > 0); ; ; asm("");
@ GENPYBIND_MANUAL({ parent.def("x$", [] {}); })
GENPYBIND(postamble) GENPYBIND_MANUAL({ struct L { int q; }; auto l = [&](auto x) { return x; }; l(3); })
struct @ A$ { GENPYBIND_MANUAL({ using T = GENPYBIND_PARENT_TYPE; (void)sizeof(T); int arr[2]; for (auto &p : arr) (void)p; if constexpr (true) {} else { goto x; } x:; try { throw 1; } catch (...) {} switch (3) { case 1: break; default:; } }) };
!constexpr auto __attribute__((annotate("◊manual"))) man$ = 3;
!static constexpr auto __attribute__((annotate("◊manual"))) man$ = [] {};
!static constexpr auto __attribute__((annotate("◊manual"))) man$ = [](auto &a, int b) {};
static auto __attribute__((annotate("◊manual"))) man$ = [](auto &a) -> int { return 1; };
!struct A$ { __attribute__((annotate("◊manual"))) int man; __attribute__((annotate("◊postamble"))) static int pm; };
__attribute__((annotate("◊"))) void at$(); __attribute__((annotate("◊visible"), annotate("other", 1, 2), annotate("◊hidden"))) void at2$(); [[clang::annotate("◊visible", 3)]] void at3$();
!__attribute__((annotate(""))) void at$(); __attribute__((annotate("◊\0visible"))) void at2$(); __attribute__((annotate("◊\x80\xff\n"))) void at3$();
void lbl$() { __attribute__((annotate("◊visible"))) int local; struct GENPYBIND(visible) Local { GENPYBIND(visible) int x; }; enum GENPYBIND(visible) LE { le }; }
@ int prm$(GENPYBIND(visible) int a, GENPYBIND(hidden) A0 b);
!struct @ A$ { GENPYBIND(visible) public: int x; @ struct B0$; };
struct @ Cyc$; struct @ CycB$ { using X @ = Cyc$; Cyc$ *p; }; struct Cyc$ : CycB$ { using Y @ = CycB$; };
!struct @ X1$ { using A GENPYBIND(expose_here) = X1$; };
namespace x$ { struct @ Q; } namespace y$ { using Q2 @ = x$::Q; using Q3 @ = Q2; } struct x$::Q {};
struct @ A$ { @ int get() const; @ void set(int v); @ static int sget(); @ int get2(int = 3) const; @ void set2(); template <typename T> @ T tget() const; };
!struct @ A$ { GENPYBIND(getter_for(p)) int get() const; GENPYBIND(setter_for(p)) void set(int v); GENPYBIND(setter_for(q)) void setq(int); GENPYBIND(getter_for(p)) int again() const; };
struct @ Inc$; @ void inc$(Inc$ &); @ Inc$ incr$(); @ extern Inc$ incv$;
@ int f$; @ int f$x(int f$) { return f$; }
struct @ A$ { @ A$(int = 0, int = 1) @; @ explicit A$(A1); @ A$(const A$ &, int = 3); template <typename T> @ A$(T t @); @ A$(A$ *); };
struct @ A$ { @ A$() try {} catch (...) {} int x; };
template <typename T> struct @ Dep$ { using type @ = typename T::type; @ typename T::type f(); @ friend void fr(Dep$) {} static_assert(sizeof(T) > 0); }; struct HasT$ { using type = A0; }; template struct @ Dep$<HasT$>;
template <typename T, int N = sizeof(T)> struct @ DA$ { @ int f(int x = N, T t = T()) const; }; template struct @ DA$<int>; using DAA$ @ = DA$<char, 3>;
template <typename T> struct @ Lz$ { struct @ In; @ In *p; }; template <typename T> struct Lz$<T>::In { T x; }; template struct @ Lz$<int>;
template <typename T> struct @ Fr$ { friend Fr$ operator+(Fr$ a, Fr$ b) @ { return a; } @ friend bool operator<(const Fr$ &, const Fr$ &) { return true; } }; template struct @ Fr$<int>;
template <class T> struct @ Part$ {}; template <class T> struct @ Part$<T *> { @ T *x; }; template struct @ Part$<int *>; template <class T> struct @ Part$<const T> ; 
auto structured$ = A1{}; @ auto [sb$] = A1{};
@ void longname_aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa$();
@ void ünïcödé$(int größe @); struct @ Ä$ { @ int ß; };
@ void u$(decltype([] {}) x); @ void v$(__typeof(int) x);
!struct @ A$ { @ void f(this A$ &self @, int x); };
struct @ [[gnu::packed]] PK$ { char c; @ int x; }; struct alignas(64) @ AL$ { @ int x; };
struct @ Big$ { @ int a0, a1 @, *a2, a3[2], (*a4)(int), &a5; Big$(); };
/** doc $ */ @ void doc$(); /// brief "quoted" \n \brief x
struct @ Doc$ { /**< trailing */ @ int x; /**< y */ };
#define M$(x) GENPYBIND(x) struct MS$ {}; 
#define N$ GENPYBIND(visible)
!struct N$ MN$ {}; N$ void mnf$();
_Pragma("genpybind include \"vfextra.h\"")
#pragma genpybind include <vector>
'''.strip().splitlines()
BASIC = ("struct GENPYBIND(visible) A0 { A0(); A0(int); int f0(); int x; };\nstruct A1 { int x; };\nenum class GENPYBIND(visible) E0 { e0a, e0b };\n"
         "template <typename T> struct B0 { T x; };\n")
NAMES = ["visible", "hidden", "expose_as", "module", "only_expose_in", "inline_base", "hide_base", "holder_type", "getter_for", "setter_for", "keep_alive",
         "noconvert", "required", "return_value_policy", "implicit_conversion", "readonly", "dynamic_attr", "arithmetic", "export_values", "expose_here",
         "encourage", "manual", "postamble", "bogus"]
ARGS = ["true", "false", "default", "this", "return", "a", "x", "t", '"x"', '"::A0"', "A0", '""', "0", "1", "4294967295", "copy", "reference", '"std::shared_ptr<A0>"',
        "__init__", "class", '"\\""', '"a\\nb"', "operator_", "lambda", '"*"', '"::"']
PRAGMAS = ["genpybind", "genpybind include", 'genpybind include "vfextra.h"', "genpybind include <>", 'genpybind include ""', "genpybind include <x", 'genpybind include "x',
           "genpybind include <vector> trailing", "genpybind foo", "genpybind include include", "genpybind include M0", "genpybind 1", "genpybind include <../../etc/passwd>",
           'genpybind include "/"', "genpybind include L\"x\"", "genpybind include R\"(x)\"", "genpybind (", "once", "genpybind include <vector\\\n>", "genpybind /* x */ include /* y */ \"vfextra.h\"",
           "genpybind include __FILE__", "genpybind include <\"x\">", "clang diagnostic push", "genpybind include 'x'", "genpybind include <" + "a" * 300 + ">"]


def annotation(r):
    x = r.random()
    if x < .3:
        return ""
    if x < .5:
        return "GENPYBIND(visible)"
    items = []
    for _ in range(r.randrange(1, 4)):
        n = r.choice(NAMES)
        k = r.random()
        items.append(n if k < .4 else "%s(%s)" % (n, ", ".join(r.choice(ARGS) for _ in range(r.choice([0, 1, 1, 1, 2, 3])))))
    if r.random() < .1:
        return '__attribute__((annotate("◊%s")))' % ", ".join(items).replace("\\", "\\\\").replace('"', '\\"')
    return "GENPYBIND(%s)" % ", ".join(items)


VALID = [s for s in EXOTIC if not s.startswith("!")]
MILD = ["GENPYBIND(visible)"] * 6 + [""] * 3 + ["GENPYBIND(hidden)", "GENPYBIND(visible(default))", "GENPYBIND(expose_as(name_$))"]


def snippet(r, n, p, mild=False):
    if mild:
        return re.sub("@", lambda m: r.choice(MILD), r.choice(VALID)).replace("$", str(n))
    s = r.choice(EXOTIC).lstrip("!").replace("$", str(n))
    return re.sub("@", lambda m: annotation(r) if r.random() < p else "", s)


def exotic(r, n=None):
    out = [PRE.rstrip(), BASIC]
    if r.random() < .7:
        out.append("#pragma clang diagnostic ignored \"-Weverything\"")
    k = 0
    mild = r.random() < .6
    for _ in range(n or r.choice([1, 2, 4, 8, 20])):
        p = r.choice([.2, .6, 1])
        group = [snippet(r, k + j, p, mild) for j in range(r.randrange(1, 4))]
        k += len(group)
        body = "\n".join(group)
        w = r.choice([0, 3, 4, 9] if mild and r.random() < .9 else range(10))
        if w < 3:
            out.append(body)
        elif w < 6:
            out.append("namespace w%d %s {\n%s\n}" % (k, r.choice(["GENPYBIND(visible)", "GENPYBIND(module)", "" if mild else annotation(r)]), body))
        elif w < 8:
            out.append("struct %s W%d {\n%s\n};" % (r.choice(["GENPYBIND(visible)", annotation(r)]), k, body))
        elif w == 8:
            out.append("template <typename WT> struct %s WT%d {\n%s\n};\ntemplate struct WT%d<int>;" % (r.choice(["GENPYBIND(visible)", annotation(r)]), k, body, k))
        else:
            out.append("extern \"C++\" {\n%s\n}" % body)
    return "\n".join(out) + "\n"




def repo_headers():
    return sorted(glob.glob(build.REPO + "/tests/**/*.h", recursive=True)) + sorted(glob.glob(build.REPO + "/tests/**/*.cpp", recursive=True))


def base_text(r):
    k = r.randrange(7)
    if k < 2:
        return "exotic", exotic(r)
    if k == 2:
        return "stress", c15.stress(r, r.choice(c15.KINDS))[1]
    if k == 3:
        h = H(r)
        World(r, budget=r.randrange(5, 40), depth=4).fill(h)
        return "world", h.header()
    if k == 4:
        b = c11.Builder(r)
        for _ in range(r.randrange(2, 14)):
            b.decl(r.random() < .5)
        return "annotations", b.case("x").header
    if k == 5:
        hs = repo_headers()
        if hs:
            try:
                t = open(r.choice(hs), encoding="utf-8", errors="surrogateescape").read()
                if "pybind11" not in t and len(t) < 20000:
                    return "repository", t
            except OSError:
                pass
    if r.random() < .5:
        return "blocks", PRE + "\n".join(c19.Tree(r, True).build()) + "\n"
    return "broken", c16.broken_header(r, r.choice(sorted(c16.BROKEN) + ["annotations"]))[0]


TOKEN = re.compile(r'"(?:\\.|[^"\\\n])*"|\w+|\s+|::|->|.', re.S)


def mutate(r, text, other):
    k = r.randrange(12)
    if not text:
        return text
    if k == 0:
        return text[:r.randrange(len(text))]
    if k == 1:
        i = r.randrange(len(text))
        return text[:i] + chr(r.choice([0, 9, 10, 26, 34, 39, 92, 123, 125, 0x80, 0xff, 0x25ca, 0x10ffff, r.randrange(32, 127)])) + text[i + r.randrange(2):]
    toks = TOKEN.findall(text)
    i, j = r.randrange(len(toks)), r.randrange(len(toks))
    if k == 2:
        del toks[i]
    elif k == 3:
        toks.insert(i, toks[j])
    elif k == 4:
        toks[i], toks[j] = toks[j], toks[i]
    elif k == 5:
        toks[min(i, j):min(i, j)] = toks[min(i, j):min(max(i, j), min(i, j) + 40)]
    elif k == 6:
        del toks[min(i, j):min(max(i, j), min(i, j) + r.randrange(1, 30))]
    elif k == 7:
        ot = TOKEN.findall(other) or [""]
        a = r.randrange(len(ot))
        toks[i:i] = ot[a:a + r.randrange(1, 60)]
    elif k == 8:
        toks.insert(i, " " + annotation(r) + " ")
    elif k == 9:
        ids = [x for x in range(len(toks)) if re.match(r"[A-Za-z_]", toks[x])]
        if ids:
            toks[r.choice(ids)] = toks[r.choice(ids)]
    elif k == 10:
        kw = r.choice(["static", "virtual", "template <typename Q>", "friend", "const", "inline", "explicit", "constexpr", "union", "enum", "namespace", "using", "typename", "operator", "= delete", "= default",
                       "= 0", "public:", "private:", "extern", "mutable", "volatile", "...", "&&", "*", "[[maybe_unused]]", "decltype(auto)", "auto", "requires true", "override", "final", ";", "{", "}", "(", ")", "<", ">"])
        toks.insert(i, " %s " % kw)
    else:
        lines = text.split("\n")
        a, b = r.randrange(len(lines)), r.randrange(len(lines))
        lines[a], lines[b] = lines[b], lines[a]
        return "\n".join(lines)
    return "".join(toks)


def extreme(r):
    n = r.choice([10, 60, 200])
    k = r.randrange(14)
    g = "GENPYBIND(visible)"
    t = [
        lambda: "".join("namespace d%d %s { " % (i, g) for i in range(n)) + "void f();" + "}" * n,
        lambda: "".join("struct %s D%d { " % (g, i) for i in range(n)) + "int x;" + "};" * n,
        lambda: "\n".join("struct %s D%d%s { int m%d(); };" % (g, i, " : D%d" % (i - 1) if i else "", i) for i in range(n)),
        lambda: "\n".join("struct %s D%d {}; " % (g, i) for i in range(n)) + "struct %s All : %s { };" % (g, ", ".join("D%d" % i for i in range(n))),
        lambda: "struct S {}; " + "\n".join("using A%d GENPYBIND(%s) = %s;" % (i, r.choice(["visible", "expose_here", "encourage"]), "A%d" % (i - 1) if i else "S") for i in range(n)),
        lambda: "template <int N> struct %s R { R<N - 1> *p; struct %s I { I *q; }; }; template struct R<%d>;" % (g, g, n),
        lambda: "%s void f(%s);" % (g, ", ".join("int a%d = %d" % (i, i) for i in range(n))),
        lambda: "%s void f(int x = %s1%s);" % (g, "(" * min(n, 200), ")" * min(n, 200)),
        lambda: "enum %s E { %s };" % (g, ", ".join("e%d" % i for i in range(n * 20))),
        lambda: "struct GENPYBIND(%s) S {};" % ", ".join(["visible", "hidden", "expose_as(x)"] * n),
        lambda: "struct GENPYBIND(expose_as(\"%s\")) S {};" % ("a" * n * 100),
        lambda: "template <typename... T> struct %s P {}; template struct P<%s>;" % (g, ", ".join(["int", "P<>"] * n)),
        lambda: "/// %s\n%s void f();" % ("x" * n * 500, g),
        lambda: "template <typename T> struct %s P {}; template struct P<%sint%s>;" % (g, "P<" * min(n, 60), ">" * min(n, 60)),
    ][k]()
    return PRE + t + "\n"


def raw(r):
    k = r.randrange(6)
    if k == 0:
        return b""
    if k == 1:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 3, 30, 2000])))
    if k == 2:
        return (PRE + "struct GENPYBIND(visible) S {").encode() + bytes(r.randrange(256) for _ in range(r.randrange(1, 200))) + b"};\n"
    if k == 3:
        return r.choice([b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"#", b"#include", b"\\", b"\\\n" * 1000, b"\r\n" * 50, b"\x00" * 50, b"/*", b'R"(', b"#if 0", b"#pragma genpybind", b"__attribute__((annotate(\"\xe2\x97\x8a"]) + r.choice([b"", b"\n", PRE.encode()])
    if k == 4:
        return exotic(r, 2).encode("utf-16" if r.random() < .5 else "latin-1", "replace")
    return ("".join(r.choice(["GENPYBIND", "(", ")", " ", "\n", "visible", ",", "struct", "{", "}", ";", '"', "#", "pragma genpybind", "x", "◊", "\\", "<", ">", "::", "template", "namespace", "=", "int"]) for _ in range(r.randrange(1, 300)))).encode()


def options(r):
    """(tool options, compiler options)"""
    t = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        t += r.choice([["--module-name=%s" % r.choice(["m", "a-b", "", "1", "ü", "a.b", "class", "x" * 300])], ["--dump-graph=visibility"], ["--dump-graph=pruned"], ["--inspect-graph"],
                       ["--inspect-graph=visibility"], ["--dump-ast"], ["--keep-output-files"], ["--verbose"], ["--xfail"], ["--dump-graph=nope"], ["--bogus"], ["-p", "/nonexistent"],
                       ["--extra-arg=-DX=1"], ["--extra-arg-before=-w"], ["--extra-arg=--bogus"], ["--help"], ["--version"], ["--print-options"]])
    c = []
    for _ in range(r.choice([0, 0, 1, 3])):
        c.append(r.choice(["-w", "-Weverything", "-Werror", "-ferror-limit=0", "-ferror-limit=1", "-fno-exceptions", "-fno-rtti", "-fms-extensions", "-fsyntax-only", "-DGENPYBIND=", "-D__GENPYBIND__=2",
                           "-fdelayed-template-parsing", "-fno-delayed-template-parsing", "-fparse-all-comments", "-O3", "-g", "-fmodules", "-ftemplate-depth=20", "-fbracket-depth=10", "-fconstexpr-steps=10", "-nostdinc", "-x", "-xc", "-xc++",
                           "-xobjective-c++", "-include", "--bogus", "-m32", "-target", "--target=i386-linux-gnu", "--target=x86_64-pc-windows-msvc", "-fblocks", "-fcoroutines", "-frecovery-ast", "-fno-recovery-ast", "-fopenmp", "-ftime-report", "-H", "-v", "-###", "-fcolor-diagnostics"]))
    return t, c


def run_one(eng, name, content, tool_opts, cc, std, feats, n_out):
    d = eng.workdir()
    try:
        main = d + "/x.h"
        with open(main, "wb") as f:
            f.write(content)
        open(d + "/vfextra.h", "w").write("#pragma once\nstruct VfExtra {};\n")
        outs = ["%s/o%d.cpp" % (d, i) for i in range(n_out)]
        args = list(tool_opts)
        for o in outs:
            args += ["-o", o]
        flags = ["-I" + d, "-I" + build.REPO + "/public", "-I" + build.PYINC] + (["-std=" + std] if std else []) + cc
        rc, out, err = eng.run_tool(args + [main, "--"] + flags, cwd=d, timeout=60)
        problems = []
        san = eng.sanitizer_report(rc, err)
        if rc is None or san:
            prc, _, perr = eng.run([build.CLANG, "-D__GENPYBIND__=1", "-x", "c++", "-fsyntax-only"] + flags + [main], cwd=d)
            if prc is None or prc not in (0, 1) or b"PLEASE submit a bug report" in perr:
                eng.count("clang_itself_fails")
            elif rc is None:
                problems.append("the tool did not finish")
            else:
                problems.append(san)
        elif rc not in (0, 1):
            problems.append("unexpected exit status %s: %s" % (rc, err[:500]))
        elif rc == 1 and not err.strip() and "--xfail" not in tool_opts:
            problems.append("the tool failed without a message")
        elif rc == 0 and not all(os.path.exists(o) and os.path.getsize(o) for o in outs) and not {"--help", "--version", "--print-options"} & set(tool_opts) and "--xfail" not in tool_opts:
            problems.append("exit status 0, but the outputs are missing: %s" % err[:500])
        eng.count("accepted" if rc == 0 else "rejected")
        return problems, rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reduced(eng, content, opts):
    """A smaller input with the same outcome, for the report (line level)."""
    lines = content.split(b"\n")
    n, budget = 2, 60
    while len(lines) > 1 and budget > 0:
        size = max(1, len(lines) // n)
        for i in range(0, len(lines), size):
            budget -= 1
            cand = lines[:i] + lines[i + size:]
            if budget >= 0 and cand and run_one(eng, "", b"\n".join(cand), *opts)[0]:
                lines, n = cand, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n *= 2
    return b"\n".join(lines)


def task(rng, i, per):
    seed = rng.getrandbits(64)

    def f(eng):
        import random
        r = random.Random(seed)
        problems, keys, feats, sample, n = [], set(), set(), None, 0
        for _ in range(per):
            k = r.randrange(20)
            if k < 8:
                kind, content = "exotic", exotic(r)
            elif k < 14:
                kind, content = base_text(r)
                _, other = base_text(r)
                for _ in range(r.choice([1, 1, 2, 5, 12])):
                    content = mutate(r, content, other)
                kind = "mutated " + kind
            elif k == 14:
                kind, content = base_text(r)
            elif k == 15:
                kind, content = "extreme", extreme(r)
            elif k == 16:
                kind, content = "bytes", raw(r)
            elif k == 17:
                ls = exotic(r, 4).split("\n")
                for _ in range(r.randrange(1, 5)):
                    p = r.choice(PRAGMAS)
                    ls.insert(r.randrange(len(ls)), '_Pragma("%s")' % p.replace("\\\n", "").replace("\\", "\\\\").replace('"', '\\"') if r.random() < .3 else "#pragma " + p)
                kind, content = "pragmas", "#define M0 <vector>\n" + "\n".join(ls)
            else:
                kind, content = "exotic one", exotic(r, 1)
            if isinstance(content, str):
                content = content.encode("utf-8", "surrogateescape")
            t, c = options(r) if r.random() < .25 else ([], ["-ferror-limit=0"] if r.random() < .3 else [])
            std = r.choice(["c++17", "c++20", "c++20", "c++23", "gnu++20", "c++14", "c11", ""]) if r.random() < .3 else "c++20"
            n_out = r.choice([1, 1, 1, 0, 2, 5])
            opts = (t, c, std, (), n_out)
            n += 1
            p, rc = run_one(eng, kind, content, *opts)
            if rc in (0, 1):
                keys.add(hashlib.sha256(content + repr(opts).encode()).hexdigest()[:16])
            feats |= {kind, "accepted" if rc == 0 else "rejected"} | {x.split("=")[0] for x in t + c}
            if p:
                small = reduced(eng, content, opts) if "finish" not in p[0] else content
                problems.append("%s\n  options %s\n%s" % (p[0][:1500], opts, small.decode(errors="replace")[:3000]))
                break
            if sample is None:
                sample = {"options": repr(opts), "input": content[:800].decode(errors="replace"), "status": rc}
        return Result(problems, key=keys, features=sorted(feats), sample=sample, evals=n)
    return FuncTask("batch/%d" % i, f, "seed %d of batch %d" % (seed, i))


def tasks(rng, tier):
    return [task(rng, i, 40) for i in range(60 if tier == "quick" else 1500)]
