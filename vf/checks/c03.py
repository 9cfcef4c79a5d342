"""A Python call runs the C++ function it names, with the same arguments."""
from ..engine import Exc, F
from ..gen import H, batch
from ..sigs import FMT, INCLUDES, Param, body, call, decl_list, overload_set, signature

RULE = ("random functions, methods, static methods, constructors, call operators, overload sets and template "
        "specializations whose bodies report their own identity and every received argument; the report of each "
        "Python call (positional, keyword and mixed) is compared with the call made; a case is distinct by header "
        "text, non-trivial if calls were made and compared")


def other_names(r, sig):
    """An earlier declaration; the names of the definition are the ones to use."""
    how = r.choice(["same", "none", "other", "swapped", "mixed"])
    names = [p.name for p in sig]
    if how == "none":
        names = [""] * len(sig)
    elif how == "other":
        names = ["u%d_" % i for i in range(len(sig))]
    elif how == "swapped":
        names = names[1:] + names[:1]
    elif how == "mixed":
        names = [r.choice(["", n]) for n in names]
    return ", ".join("%s %s" % (p.type, n) for p, n in zip(sig, names))


def out_of_class(h):
    """Members declared in the class and defined outside of it."""
    r, c = h.rng, h.id("Ooc")
    ns = h.id("ns")
    decl, defs, calls = ["int id;"], [], []
    s = signature(r, r.randrange(1, 4))
    decl.append("%s(int id_, %s);" % (c, other_names(r, s)))
    defs.append("inline %s::%s(int id_, %s) : id(id_) { log = [&]() -> std::string { %s }(); }" % (c, c, decl_list(s), body(c, s)))
    decl.append("std::string log; explicit %s(int id_) : id(id_) {}" % c)
    args, want = call(r, s, c, style=r.choice(["pos", "kw"]))
    h.probe("m.%s(%s).log" % (c, "4, " + args if "=" not in args else args + ", id_=4"), want)
    for _ in range(r.randrange(1, 4)):
        f = h.id("om")
        s = signature(r, r.randrange(1, 5))
        static = r.random() < .3
        q = "" if static else r.choice(["", "const "])
        decl.append("%s std::string %s(%s) %s;" % ("static" if static else "", f, other_names(r, s), q))
        defs.append("inline std::string %s::%s(%s) %s{ %s }" % (c, f, decl_list(s), q, body(f, s)))
        args, want = call(r, s, f)
        h.probe("m.%s%s.%s(%s)" % (c, "" if static else "(2)", f, args), want)
    h.add("namespace %s { struct GENPYBIND(visible) %s {" % (ns, c), *decl)
    h.add("};", *defs)
    h.add("}")


def free(h):
    r = h.rng
    f = h.id("fn")
    sigs = overload_set(r, r.choice([1, 1, 2, 3, 4]))
    ns = r.choice(["", "", "n", "mod"])
    where = h.id("ns")
    if ns:
        h.add("namespace %s GENPYBIND(%s) {" % (where, "visible" if ns == "n" else "visible, module"))
    for i, s in enumerate(sigs):
        tag = "%s/%d" % (f, i)
        ann = "" if ns and r.random() < .7 else "GENPYBIND(visible)"
        q = r.choice(["", "", "noexcept "])
        style = r.randrange(3)
        if style == 0:
            for k in range(r.choice([1, 1, 2])):
                h.add("%s inline std::string %s(%s) %s;" % (ann if k == 0 else "", f, other_names(r, s), q))
            h.add(
                  "inline std::string %s(%s) %s{ %s }" % (f, decl_list(s), q, body(tag, s)))
        elif style == 1:
            h.add("%s inline auto %s(%s) %s-> std::string { %s }" % (ann, f, decl_list(s), q, body(tag, s)))
        else:
            h.add("%s inline std::string %s(%s) %s{ %s }" % (ann, f, decl_list(s), q, body(tag, s)))
    if ns:
        h.add("}")
    o = "m.%s.%s" % (where, f) if ns == "mod" else "m." + f
    for i, s in enumerate(sigs):
        for _ in range(2):
            args, want = call(r, s, "%s/%d" % (f, i), style="pos" if len(sigs) > 1 else None)
            h.probe("%s(%s)" % (o, args), want)
        if len(sigs) == 1 and s:
            # too few or too many arguments, unknown names
            args, _ = call(r, s[:-1], "", style="pos")
            h.probe("%s(%s)" % (o, args), Exc("TypeError"))
            args, _ = call(r, s, "", style="pos")
            h.probe("%s(%s, 1)" % (o, args), Exc("TypeError"))
            h.probe("%s(%s, nosuch_=1)" % (o, args), Exc("TypeError"))


def methods(h):
    r = h.rng
    c = h.id("Cls")
    ns = h.id("ns")
    h.add("namespace %s {" % ns, "class GENPYBIND(visible) %s {" % c, "public:", "int id;",
          "%s(int id_) : id(id_) {}" % c)
    calls = []
    for _ in range(r.randrange(2, 5)):
        f = h.id("meth")
        sigs = overload_set(r, r.choice([1, 1, 2, 3]))
        static = r.random() < .3
        for i, s in enumerate(sigs):
            tag = "%s/%d" % (f, i)
            const = r.random() < .5
            q = "" if static else ("const " if const else "") + r.choice(["", "", "noexcept "])
            h.add("%s%sstd::string %s(%s) %s{ %s }" % (
                "static " if static else r.choice(["", "", "virtual "]), r.choice(["", ""]), f, decl_list(s), q,
                body(tag, s, "" if static else " + \"@\" + std::to_string(id)")))
            calls.append((f, s, tag, static, len(sigs) > 1))
    h.add("};", "}")
    for f, s, tag, static, ovl in calls:
        k = r.randrange(1000)
        args, want = call(r, s, tag, "" if static else "@%d" % k, style="pos" if ovl else None)
        if static:
            h.probe("m.%s.%s(%s)" % (c, f, args), want)
            h.probe("m.%s(3).%s(%s)" % (c, f, args), want)
        else:
            h.probe("m.%s(%d).%s(%s)" % (c, k, f, args), want)
            h.probe("m.%s.%s(m.%s(%d)%s)" % (c, f, c, k, ", " + args if args else ""), want)


def constructors(h):
    r = h.rng
    c = h.id("Ctor")
    sigs = overload_set(r, r.randrange(1, 5))
    h.add("struct GENPYBIND(visible) %s {" % c, "std::string log;")
    for i, s in enumerate(sigs):
        h.add("%s%s(%s) { auto f = [&]() -> std::string { %s }; log = f(); }" % (
            r.choice(["", "explicit "]), c, decl_list(s), body("%s/%d" % (c, i), s)))
    h.add("};")
    for i, s in enumerate(sigs):
        args, want = call(r, s, "%s/%d" % (c, i), style="pos" if len(sigs) > 1 else None)
        h.probe("m.%s(%s).log" % (c, args), want)
        if r.random() < .3:
            h.probe("m.%s(m.%s(%s)).log" % (c, c, args), want, "copy")


def call_operator(h):
    r = h.rng
    c = h.id("Fun")
    sigs = overload_set(r, r.randrange(1, 4))
    named = h.id("apply") if r.random() < .3 else None
    h.add("struct GENPYBIND(visible) %s { int id; %s(int id_) : id(id_) {}" % (c, c))
    for i, s in enumerate(sigs):
        h.add("%s std::string operator()(%s) %s{ %s }" % (
            "GENPYBIND(expose_as(%s))" % named if named else "", decl_list(s), r.choice(["", "const "]),
            body("%s/%d" % (c, i), s, " + \"@\" + std::to_string(id)")))
    h.add("};")
    for i, s in enumerate(sigs):
        k = r.randrange(100)
        args, want = call(r, s, "%s/%d" % (c, i), "@%d" % k, style="pos" if len(sigs) > 1 else None)
        h.probe("m.%s(%d)%s(%s)" % (c, k, "." + named if named else "", args), want)


def mutation(h):
    """State changes hit exactly the object the call was made on or with."""
    r = h.rng
    c, f = h.id("Mut"), h.id("bump")
    h.add("struct GENPYBIND(visible) %s { int v = 0; int other = -1;" % c,
          "void add(int d) { v += d; }", "int get() const { return v; }", "%s *self() { return this; }" % c,
          "void take(%s &o) { v += o.v; o.v = 0; }" % c, "};",
          "GENPYBIND(visible) inline void %s(%s &o, int d) { o.v += d; }" % (f, c),
          "GENPYBIND(visible) inline void %s_ptr(%s *o, int d) { if (o) o->v += 2 * d; }" % (f, c),
          "GENPYBIND(visible) inline int %s_val(%s o) { o.v += 5; return o.v; }" % (f, c))
    seq, model = ["a, b = m.%s(), m.%s()" % (c, c)], {"a": 0, "b": 0}
    for _ in range(r.randrange(3, 9)):
        o, p = r.sample(["a", "b"], 2)
        d = r.randrange(1, 50)
        w = r.randrange(6)
        if w == 0:
            seq.append("%s.add(%d)" % (o, d)); model[o] += d
        elif w == 1:
            seq.append("m.%s(%s, %d)" % (f, o, d)); model[o] += d
        elif w == 2:
            seq.append("m.%s(d=%d, o=%s)" % (f, d, o)); model[o] += d
        elif w == 3:
            seq.append("m.%s_ptr(%s, %d)" % (f, o, d)); model[o] += 2 * d
        elif w == 4:
            seq.append("assert m.%s_val(%s) == %s.v + 5" % (f, o, o))
        else:
            seq.append("%s.take(%s)" % (o, p)); model[o] += model[p]; model[p] = 0
    seq.append("_ = [a.v, b.v, a.get(), b.get(), a.other, b.other, a.self() is a, b.self() is b]")
    h.probe("@" + "\n".join(seq), [model["a"], model["b"], model["a"], model["b"], -1, -1, True, True])


def virtuals(h):
    r = h.rng
    b, d = h.id("Base"), h.id("Derived")
    h.add("struct GENPYBIND(visible) %s { virtual ~%s() = default; virtual int who(int x) const { return x + 1; }"
          " int plain(int x) const { return x + 10; } };" % (b, b),
          "struct GENPYBIND(visible) %s : %s { int who(int x) const override { return x + 2; }"
          " int plain(int x) const { return x + 20; } };" % (d, b),
          "GENPYBIND(visible) inline int via_%s(const %s &o, int x) { return o.who(x) * 1000 + o.plain(x); }" % (b, b))
    k = r.randrange(100)
    h.probe("[m.%s().who(%d), m.%s().plain(%d), m.%s().who(%d), m.%s().plain(%d)]" % (b, k, b, k, d, k, d, k),
            [k + 1, k + 10, k + 2, k + 20])
    h.probe("[m.via_%s(m.%s(), %d), m.via_%s(m.%s(), %d), m.%s.plain(m.%s(), %d), m.%s.who(m.%s(), %d)]" % (
        b, b, k, b, d, k, b, d, k, b, d, k),
        [(k + 1) * 1000 + k + 10, (k + 2) * 1000 + k + 10, k + 10, k + 2])


def templates(h):
    """Explicit function template specializations all stay callable."""
    r = h.rng
    f = h.id("tpl")
    insts = r.sample([("int", "3", "3"), ("double", "1.5", "1.5"), ("std::string", "'q'", "'q'"),
                      ("rec::A", "m.RecA(4)", "A4"), ("rec::inner::C", "m.RecC(8)", "C8")], r.randrange(1, 5))
    kind = r.choice(["free", "ns", "member", "static", "ctor"])
    two = r.random() < .5
    params = "const T &v" + (", int n" if two else "")
    ret = "return std::string(\"%s:\") + rec::s(v)%s;" % (f, " + \"#\" + std::to_string(n)" if two else "")
    sig2 = ", int" if two else ""
    if kind in ("free", "ns"):
        if kind == "ns":
            h.add("namespace %s_ns {" % f)
        h.add("template <typename T> GENPYBIND(visible) std::string %s(%s) { %s }" % (f, params, ret))
        for t, _, _ in insts:
            h.add(r.choice(["template std::string %s<%s>(const %s &%s);", "extern template std::string %s<%s>(const %s &%s);",
                            ]).replace("extern ", "") % (f, t, t, sig2) if r.random() < .7 else
                  "template <> inline std::string %s<%s>(const %s &v%s) { %s }" % (f, t, t, ", int n" if two else "", ret))
        if kind == "ns":
            h.add("}")
        o = "m." + f
    elif kind in ("member", "static"):
        h.add("struct GENPYBIND(visible) %s_S { template <typename T> %sstd::string %s(%s) %s{ %s } };" % (
            f, "static " if kind == "static" else "", f, params, "const " if kind == "member" and r.random() < .5 else "", ret))
        cq = " const" if ") const {" in h.text[-1] else ""
        for t, _, _ in insts:
            h.add("template std::string %s_S::%s<%s>(const %s &%s)%s;" % (f, f, t, t, sig2, cq))
        o = "m.%s_S.%s" % (f, f) if kind == "static" else "m.%s_S().%s" % (f, f)
    else:
        h.add("struct GENPYBIND(visible) %s_S { std::string log; template <typename T> %s_S(%s) "
              ": log([&]() -> std::string { %s }()) {} };" % (f, f, params, ret))
        for t, _, _ in insts:
            h.add("template %s_S::%s_S(const %s &%s);" % (f, f, t, sig2))
        o = "m.%s_S" % f
    for t, py, text in insts:
        h.probe("%s(%s%s)%s" % (o, py, ", 6" if two else "", ".log" if kind == "ctor" else ""),
                "%s:%s%s" % (f, text, "#6" if two else ""))
        h.probe("%s(%sv=%s)%s" % (o, "n=6, " if two else "", py, ".log" if kind == "ctor" else ""),
                "%s:%s%s" % (f, text, "#6" if two else ""))


def template_overloads(h):
    """Functions overloaded with function templates of the same name."""
    r = h.rng
    f = h.id("to")
    kind = r.choice(["free", "ns", "member", "const", "static", "template"])
    k = r.randrange(100, 900)
    tpl = "template <typename T> int %s(T)%s { return -1; }" % (f, " const" if kind == "const" else "")
    if kind == "static":
        tpl = tpl.replace("int %s" % f, "static int %s" % f)
    lines = [tpl] if r.random() < .7 else [tpl, tpl.replace("(T)", "(T *, int)")]
    cq = " const" if kind == "const" else ""
    st = "static " if kind == "static" else "GENPYBIND(visible) inline " if kind in ("free", "ns") else ""
    a, b = r.random() < .5, r.random() < .5
    lines += ["%sint %s(int a, const std::string &b)%s { return %d + a + static_cast<int>(b.size()); }" % (st, f, cq, k),
              "%s%s %s(double a)%s%s { return std::string(\"d\") + std::to_string(static_cast<int>(a * 2)); }" % (st, "auto" if a else "std::string", f, cq, " noexcept" if b else ""),
              "%sconst rec::A &%s(const rec::A &x, int)%s { return x; }" % (st, f, cq)]
    spec = r.random() < .5
    r.shuffle(lines)
    if kind in ("free", "ns"):
        lines += ["template <> GENPYBIND(visible) inline int %s(std::string) { return 77; }" % f] if spec else []
        h.add(*(["namespace %s_n {" % f] if kind == "ns" else []), *lines, *(["}"] if kind == "ns" else []))
        o = "m." + f
    else:
        h.add("%sstruct GENPYBIND(visible) %s_S {" % ("template <typename Q> " if kind == "template" else "", f), *lines, "};")
        if kind == "template":
            h.add("template struct %s_S<int>;" % f)
            o = "m.%s_S_int_().%s" % (f, f)
        else:
            o = "m.%s_S().%s" % (f, f)
            if spec:
                h.add("template int %s_S::%s(std::string)%s;" % (f, f, cq))
    h.probe("[{0}(3, 'abc'), {0}(b='x', a=4), {0}(2.5), {0}(m.RecA(4), 0).id]".format(o), [k + 6, k + 5, "d5", 4])
    if spec and kind != "template":
        h.probe("%s('q')" % o, 77 if kind in ("free", "ns") else -1)


def template_values(h):
    """Specializations that differ in non-deduced arguments, renamed."""
    r = h.rng
    f = h.id("tv")
    h.add("template <int N, typename T = int> GENPYBIND(visible) int %s(T x) { return N * 100 + static_cast<int>(x) + sizeof(T) * 1000; }" % f)
    ks = r.sample(range(1, 40), r.randrange(1, 4))
    for k in ks:
        t, size = r.choice([("int", 4), ("short", 2), ("long long", 8)])
        h.add("template GENPYBIND(expose_as(%s_%d)) int %s<%d, %s>(%s);" % (f, k, f, k, t, t))
        h.probe("m.%s_%d(7)" % (f, k), k * 100 + 7 + size * 1000)


def unnamed_and_odd(h):
    r = h.rng
    f = h.id("odd")
    w = r.randrange(6)
    if w == 0:
        h.add("GENPYBIND(visible) inline int %s(int, int b, int) { return b; }" % f)
        h.probe("m.%s(1, 2, 3)" % f, 2)
    elif w == 1:
        h.add("GENPYBIND(visible) inline std::string %s(const char s[], int n) { return std::string(s) + std::to_string(n); }" % f)
        h.probe("m.%s(n=4, s='xy')" % f, "xy4")
    elif w == 2:
        n = r.randrange(8, 14)
        h.add("GENPYBIND(visible) inline std::string %s(%s) { std::string r; for (int v : {%s}) r += std::to_string(v) + ';'; return r; }" % (
            f, ", ".join("int p%d" % i for i in range(n)), ", ".join("p%d" % i for i in range(n))))
        order = list(range(n))
        r.shuffle(order)
        h.probe("m.%s(%s)" % (f, ", ".join("p%d=%d" % (i, i * i) for i in order)), "".join("%d;" % (i * i) for i in range(n)))
    elif w == 3:
        h.include("<stdexcept>")
        h.add("GENPYBIND(visible) inline int %s(int x) { if (x < 0) throw std::invalid_argument(\"neg\"); return x; }" % f)
        h.probe("m.%s(4)" % f, 4)
        h.probe("m.%s(-4)" % f, Exc("ValueError"))
    elif w == 4:
        h.add("GENPYBIND(visible) inline int %s(int (&&x)) { return x + 1; }" % f if False else
              "GENPYBIND(visible) inline const rec::A *%s(const rec::A *a) { return a; }" % f)
        h.probe("m.%s(None)" % f, None)
        h.probe("m.%s(m.RecA(5)).id" % f, 5)
    else:
        h.add("namespace %s_a GENPYBIND(visible, module) { struct X { int v = 1; }; inline int g(X x) { return x.v; } }" % f,
              "namespace %s_b GENPYBIND(visible, module) { struct X { int v = 2; }; inline int g(X x) { return x.v; } "
              "inline int g(%s_a::X x) { return x.v * 10; } }" % (f, f))
        h.probe("[m.%s_a.g(m.%s_a.X()), m.%s_b.g(m.%s_b.X()), m.%s_b.g(m.%s_a.X())]" % ((f,) * 6), [1, 2, 10])
        h.probe("m.%s_a.g(m.%s_b.X())" % (f, f), Exc("TypeError"))


def const_overloads(h):
    """Overloads that differ in constness and in parameters."""
    r = h.rng
    c = h.id("Cq")
    h.add("struct GENPYBIND(visible) %s { int f(int x) const { return x + 1; } int f(const std::string &x) { return (int)x.size() + 100; }"
          " int f(double, int) const { return 3; } int g(int x) { return x + 5; } };" % c)
    h.probe("[m.%s().f(1), m.%s().f('abc'), m.%s().f(1.5, 2), m.%s().g(2)]" % (c, c, c, c), [2, 103, 3, 7])


def pulled_in(h):
    """Functions made available by a using declaration."""
    r = h.rng
    b, d = h.id("UB"), h.id("UD")
    h.add("struct %s { int f(int x) const { return x * 2; } static int g(int x) { return x * 3; } int fld = 9; };" % b,
          "struct GENPYBIND(visible) %s : %s { using %s::f; using %s::g; using %s::fld; };" % (d, b, b, b, b))
    h.probe("[m.%s().f(4), m.%s.g(5), m.%s().fld]" % (d, d, d), [8, 15, 9])


def inherited_constructors(h):
    """Constructors made available by a using declaration that names the base."""
    r = h.rng
    b, d = h.id("IB"), h.id("ID")
    tpl = r.random() < .3
    shown = not tpl and r.random() < .5
    sigs = overload_set(r, r.randrange(1, 4))
    ctor = "%s%s(%s) { log = [&]() -> std::string { %s }(); }"
    copy = r.choice(["", "", "%s(const %s &) = default;" % (b, b), "%s(const %s &o, int k) : log(o.log + \"+\" + std::to_string(k)) {}" % (b, b) if not tpl else ""])
    h.add("%sstruct %s%s { std::string log;" % ("template <typename T> " if tpl else "", "GENPYBIND(visible) " if shown else "", b))
    hidden = None
    for i, s in enumerate(sigs):
        a = ""
        if len(sigs) > 1 and i == len(sigs) - 1 and r.random() < .4:
            a, hidden = "GENPYBIND(hidden) ", i
        h.add(a + ctor % (r.choice(["", "explicit "]), b, decl_list(s), body("%s/%d" % (b, i), s)))
    h.add(copy, "protected: %s(const rec::A &, const rec::A &, const rec::A &, int) {}" % b, "};")
    full = b + ("<int>" if tpl else "")
    cls = ["using %s::%s;" % (full, b), "int mine = 5;"]
    over = None
    if r.random() < .4:
        over = r.randrange(len(sigs))
        s = sigs[over]
        h.feature("inherited/hidden-by-own")
        cls.append("%s(%s) : %s(%s) { log = [&]() -> std::string { %s }(); }" % (d, decl_list(s), full, ", ".join(p.name for p in s), body("%s/own" % d, s)))
    ann = "visible" if shown else "visible, inline_base(%s)" % b
    h.add("struct GENPYBIND(%s) %s : %s {" % (ann, d, full), *cls, "};")
    e = None
    if r.random() < .4:
        e = h.id("IE")
        h.add("struct GENPYBIND(visible) %s : %s { using %s::%s; };" % (e, d, d, d))
    h.feature("inherited/%s%s" % ("template" if tpl else "shown" if shown else "inlined", "-chain" if e else ""))
    for c in [d] + ([e] if e else []):
        for i, s in enumerate(sigs):
            args, want = call(r, s, "%s/own" % d if i == over else "%s/%d" % (b, i), style="pos" if len(sigs) > 1 else None)
            if i == hidden and i != over:
                continue
            h.probe("m.%s(%s).log, m.%s(%s).mine" % (c, args, c, args), [want, 5])
            h.probe("m.%s(m.%s(%s)).log" % (c, c, args), want, "copy")
        if shown and hidden is None and len(sigs[0]) != 1:
            args, want = call(r, sigs[0], "", style="pos")
            h.probe("m.%s(m.%s(%s))" % (c, b, args), Exc("TypeError"), "no construction from the base")


UNITS = [free, free, inherited_constructors, out_of_class, methods, methods, constructors, call_operator, mutation, virtuals, templates, template_overloads, template_values,
         unnamed_and_odd, const_overloads, pulled_in]


def prep(rng):
    h = H(rng, INCLUDES)
    h.add(FMT)
    return h


def varargs(rng, i):
    """pybind11::args and pybind11::kwargs parameters."""
    h = H(rng, ["<pybind11/pybind11.h>", "<string>"])
    r = rng
    for _ in range(4):
        f = h.id("va")
        k = r.choice(["args", "kwargs", "both"])
        lead = r.randrange(0, 3)
        ps = ["int a%d" % j for j in range(lead)]
        if k in ("args", "both"):
            ps.append(r.choice(["pybind11::args rest", "const pybind11::args &rest"]))
        tail = k == "args" and r.random() < .4
        if tail:
            ps.append("int after")
        if k in ("kwargs", "both"):
            ps.append(r.choice(["pybind11::kwargs kw", "const pybind11::kwargs &kw"]))
        parts = ["std::string(\"%s\")" % f] + ["\",\" + std::to_string(a%d)" % j for j in range(lead)]
        if k in ("args", "both"):
            parts.append("\"|\" + std::string(pybind11::str(pybind11::object(rest)))")
        if tail:
            parts.append("\"~\" + std::to_string(after)")
        if k in ("kwargs", "both"):
            parts.append("\"|\" + std::string(pybind11::str(pybind11::object(kw)))")
        member = r.random() < .4
        fn = "std::string %s(%s) { return %s; }" % (f, ", ".join(ps), " + ".join(parts))
        if member:
            h.add("struct GENPYBIND(visible) S_%s { %s };" % (f, fn))
        else:
            h.add("GENPYBIND(visible) inline " + fn)
        o = "m.S_%s().%s" % (f, f) if member else "m." + f
        extra = [r.randrange(50) for _ in range(r.randrange(4))] if k != "kwargs" else []
        kws = {"k%d" % j: j for j in range(r.randrange(3))} if k != "args" else {}
        args = [str(10 + j) for j in range(lead)] + [str(e) for e in extra]
        call_ = ", ".join(args + (["after=77"] if tail else []) + ["%s=%d" % x for x in kws.items()])
        want = f + "".join(",%d" % (10 + j) for j in range(lead))
        if k != "kwargs":
            want += "|" + str(tuple(extra))
        if tail:
            want += "~77"
        if k != "args":
            want += "|" + str(kws)
        h.probe("%s(%s)" % (o, call_), want)
    h.feature("varargs")
    return h.case("varargs/%d" % i)


def tasks(rng, tier):
    out = []
    n = 80 if tier == "quick" else 1500
    order = []
    for i in range(n):
        h = prep(rng)
        for _ in range(7):
            if not order:
                order = list(UNITS)
                rng.shuffle(order)
            u = order.pop()
            h.feature(u.__name__)
            u(h)
        out.append(h.case("calls/%d" % i))
    for i in range(6 if tier == "quick" else 80):
        out.append(varargs(rng, i))
    return out
