"""Call policies apply to exactly the named parameters and functions."""
from ..engine import Exc, Pred
from ..gen import H

RULE = ("random signatures (free, member, static, constructor, call operator, template) with random noconvert, required, keep_alive, "
        "return_value_policy and implicit_conversion annotations; for every parameter convertible arguments and None are offered, "
        "after every call the set of objects still alive is compared with the reachability model, and identity, copies, moves and "
        "destructions of results with the stated ownership; distinct by header text, non-trivial if calls were observed")

WORLD = r'''
struct GENPYBIND(visible) Conv { int v; GENPYBIND(implicit_conversion) Conv(int v_) : v(v_) {} };
struct GENPYBIND(visible) Obj { int v; explicit Obj(int v_ = 4) : v(v_) {} };
struct GENPYBIND(visible) Tok { int v = 0; inline static int alive = 0; inline static int copies = 0; inline static int moves = 0;
  Tok() { ++alive; } Tok(int v_) : v(v_) { ++alive; } Tok(const Tok &o) : v(o.v) { ++alive; ++copies; } GENPYBIND(hidden) Tok(Tok &&o) : v(o.v) { o.v = -1; ++alive; ++moves; } Tok &operator=(const Tok &) = default; ~Tok() { v = -2; --alive; } };
namespace rec {
inline std::string s(double v) { return "d" + std::to_string(static_cast<long>(v * 2)); }
inline std::string s(int v) { return "i" + std::to_string(v); }
inline std::string s(const std::string &v) { return "s" + v; }
inline std::string s(const Conv &v) { return "c" + std::to_string(v.v); }
inline std::string s(const Conv *v) { return v ? s(*v) : "null"; }
inline std::string s(const Obj &v) { return "o" + std::to_string(v.v); }
inline std::string s(const Obj *v) { return v ? s(*v) : "null"; }
inline std::string s(const std::shared_ptr<Sh> &v) { return v ? "sh" + std::to_string(v->v) : "null"; }
inline std::string s(const std::vector<double> &v) { std::string r = "["; for (double x : v) r += s(x); return r + "]"; }
template <typename... A> std::string all(const A &...a) { std::string r; ((r += s(a) + ";"), ...); return r; }
}
'''
# kind -> C++ types, (exact argument, record), (argument that needs a conversion, record), None allowed
KINDS = {
    "double": (["double", "const double &", "float"], ("2.5", "d5"), ("3", "d6"), False),
    "conv": (["Conv", "const Conv &", "Conv &"], ("m.Conv(8)", "c8"), ("7", "c7"), False),
    "convp": (["Conv *", "const Conv *"], ("m.Conv(8)", "c8"), ("7", "c7"), True),
    "objp": (["Obj *", "const Obj *"], ("m.Obj(5)", "o5"), None, True),
    "sh": (["std::shared_ptr<Sh>", "const std::shared_ptr<Sh> &"], ("m.Sh(6)", "sh6"), None, True),
    "vec": (["std::vector<double>", "const std::vector<double> &"], ("[1.5]", "[d3]"), ("[1, 2]", "[d2d4]"), False),
    "int": (["int"], ("9", "i9"), None, False),
    "str": (["std::string", "const std::string &"], ("'q'", "sq"), None, False),
}


def args_unit(h):
    """noconvert and required."""
    r = h.rng
    f = h.id("f")
    n = r.randrange(1, 6)
    ps = []
    for i in range(n):
        k = r.choice(["double", "conv", "convp", "objp", "sh", "vec", "int", "str", "double", "convp"])
        ps.append((k, r.choice(KINDS[k][0]), r.choice(["a", "b", "arg", "x", "value", "self_", "other"]) + str(i)))
    noconv = {i for i in range(n) if r.random() < .35}
    req = {i for i in range(n) if r.random() < .35 and KINDS[ps[i][0]][3]}
    ann = []
    if noconv:
        names = [ps[i][2] for i in noconv]
        r.shuffle(names)
        if r.random() < .5:
            ann.append("noconvert(%s)" % ", ".join(names))
        else:
            ann += ["noconvert(%s)" % r.choice(["%s", '"%s"']) % x for x in names]
    if req:
        names = [ps[i][2] for i in req]
        r.shuffle(names)
        if r.random() < .5:
            ann.append("required(%s)" % ", ".join(names))
        else:
            ann += ["required(%s)" % r.choice(["%s", '"%s"']) % x for x in names]
    r.shuffle(ann)
    ann = ["visible"] + ann if r.random() < .7 or not ann else ann
    kind = r.choice(["free", "method", "const", "static", "ctor", "call", "template", "template_class", "ns", "inlined", "redeclared", "derived"])
    h.feature("args/" + kind)
    A = "GENPYBIND(%s) " % ", ".join(ann)
    params = ", ".join("%s %s" % (t, nm) for _, t, nm in ps)
    body = "{ return rec::all(%s); }" % ", ".join(nm for _, _, nm in ps)
    call, tail = None, ""
    if kind == "free":
        h.add("%sinline std::string %s(%s) %s" % (A, f, params, body))
        call = "m." + f
    elif kind == "redeclared":
        h.add("%sstd::string %s(%s);" % (A, f, params), "inline std::string %s(%s) %s" % (f, params, body))
        call = "m." + f
    elif kind == "ns":
        h.add("namespace %s_n GENPYBIND(module) { %sinline std::string %s(%s) %s }" % (f, A, f, params, body))
        call = "m.%s_n.%s" % (f, f)
    elif kind in ("method", "const", "static"):
        h.add("struct GENPYBIND(visible) S%s { %s%sstd::string %s(%s)%s %s };" % (f, A, "static " if kind == "static" else "", f, params, " const" if kind == "const" else "", body))
        call = r.choice(["m.S%s.%s", "m.S%s().%s"]) % (f, f) if kind == "static" else "m.S%s().%s" % (f, f)
    elif kind == "ctor":
        h.add("struct GENPYBIND(visible) S%s { std::string log; %sS%s(%s) : log(rec::all(%s)) {} };" % (f, A, f, params, ", ".join(nm for _, _, nm in ps)))
        call, tail = "m.S%s" % f, ".log"
    elif kind == "call":
        h.add("struct GENPYBIND(visible) S%s { %sstd::string operator()(%s) const %s };" % (f, A, params, body))
        call = "m.S%s()" % f
    elif kind == "template":
        h.add("template <typename T> %sstd::string %s(%s) %s" % (A, f, params.replace("double", "T") if False else params, body), "template std::string %s<int>(%s);" % (f, ", ".join(t for _, t, _ in ps)))
        call = "m." + f
    elif kind == "template_class":
        h.add("template <typename T> struct GENPYBIND(visible) S%s { %sstd::string %s(%s) const %s };" % (f, A, f, params, body), "template struct S%s<int>;" % f)
        call = "m.S%s_int_().%s" % (f, f)
    elif kind == "derived":
        h.add("struct GENPYBIND(visible) B%s { %sstd::string %s(%s) %s }; struct GENPYBIND(visible) S%s : B%s {};" % (f, A, f, params, body, f, f))
        call = "m.S%s().%s" % (f, f)
    else:
        h.add("struct B%s { %sstd::string %s(%s) %s }; struct GENPYBIND(visible, inline_base(\"B%s\")) S%s : B%s {};" % (f, A, f, params, body, f, f, f))
        call = "m.S%s().%s" % (f, f)
    exact = [KINDS[k][1] for k, _, _ in ps]

    def probe(vals, ok):
        if r.random() < .5:
            a = ", ".join(v[0] for v in vals)
        else:
            cut = r.randrange(n + 1)
            kw = ["%s=%s" % (ps[i][2], vals[i][0]) for i in range(cut, n)]
            r.shuffle(kw)
            a = ", ".join([v[0] for v in vals[:cut]] + kw)
        h.probe("%s(%s)%s" % (call, a, tail), "".join(v[1] + ";" for v in vals) if ok else Exc("TypeError"))
    probe(exact, True)
    for i, (k, t, nm) in enumerate(ps):
        _, ex, cv, none = KINDS[k]
        if cv:
            vals = list(exact)
            vals[i] = cv
            probe(vals, i not in noconv)
        vals = list(exact)
        vals[i] = ("None", "null")
        if not none:
            probe(vals, False)
        elif i in req:
            probe(vals, False)
        elif i not in noconv:
            probe(vals, True)
    # everything else converted at once
    vals = [KINDS[k][2] if KINDS[k][2] and i not in noconv else KINDS[k][1] for i, (k, _, _) in enumerate(ps)]
    probe(vals, True)


def overloads(h):
    """noconvert on one overload leaves the others alone."""
    r = h.rng
    f = h.id("ov")
    which = r.randrange(3)
    A = ["GENPYBIND(visible, noconvert(x)) ", "GENPYBIND(visible) ", "GENPYBIND(visible) "]
    r.shuffle(A)
    nd, nc = "noconvert" in A[0], "noconvert" in A[1]
    h.add("%sinline std::string %s(double x) { return rec::all(x); }" % (A[0], f), "%sinline std::string %s(const Conv &x, int) { return rec::all(x); }" % (A[1], f), "%sinline std::string %s(const std::string &x) { return rec::all(x); }" % (A[2], f))
    h.probe("%s(2.5)" % ("m." + f), "d5;")
    h.probe("m.%s(2)" % f, Exc("TypeError") if nd else "d4;")
    h.probe("m.%s(2, 1)" % f, Exc("TypeError") if nc else "c2;")
    h.probe("m.%s('x')" % f, "sx;")


def defaults(h):
    r = h.rng
    f = h.id("df")
    h.add("GENPYBIND(visible, noconvert(b), required(c)) inline std::string %s(double a, double b = 1.5, Obj *c = nullptr, const Obj *d = nullptr) { return rec::all(a, b, c, d); }" % f)
    h.probe("[m.{0}(1), m.{0}(1, 2.5), m.{0}(1, d=None), m.{0}(1, c=m.Obj(3)), m.{0}(1, d=m.Obj(3))]".format(f),
            ["d2;d3;null;null;", "d2;d5;null;null;", "d2;d3;null;null;", "d2;d3;o3;null;", "d2;d3;null;o3;"]) if False else None
    h.probe("[m.{0}(1, 2.5, m.Obj(3)), m.{0}(1, c=m.Obj(3)), m.{0}(1, c=m.Obj(3), d=None), m.{0}(1, d=m.Obj(2), c=m.Obj(3))]".format(f),
            ["d2;d5;o3;null;", "d2;d3;o3;null;", "d2;d3;o3;null;", "d2;d3;o3;o2;"])
    h.probe("m.%s(1, 2)" % f, Exc("TypeError"))
    h.probe("m.%s(1, c=None)" % f, Exc("TypeError"))
    h.probe("m.%s(None)" % f, Exc("TypeError"))


def keep_alive(h):
    r = h.rng
    f = h.id("ka")
    kind = r.choice(["free", "method", "static", "ctor", "const", "call", "template", "derived", "ns"])
    n = r.randrange(1, 4)
    names = [r.choice(["a", "b", "p", "parent", "child"]) + str(i) for i in range(n)]
    nodes = list(names)
    has_this = kind in ("method", "ctor", "const", "call", "derived")
    if has_this:
        nodes.append("this")
    if kind != "ctor":
        nodes.append("return")
    order = list(nodes)
    r.shuffle(order)
    edges = set()
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
        if len(order) > 1:
            i, j = sorted(r.sample(range(len(order)), 2))
            edges.add((order[i], order[j]))
    ann = ["keep_alive(%s, %s)" % e for e in sorted(edges)]
    r.shuffle(ann)
    if r.random() < .5 or not ann:
        ann.insert(r.randrange(len(ann) + 1), "visible")
    A = "GENPYBIND(%s) " % ", ".join(ann)
    t = r.choice(["Tok *", "Tok &", "const Tok &"])
    params = ", ".join("%s %s" % (r.choice(["Tok *", "Tok &", "const Tok &", "const Tok *"]), x) for x in names)
    void = "".join("(void)%s; " % x for x in names)
    ret, val = r.choice([("Tok", "Tok(7)"), ("Tok *", "new Tok(7)"), ("std::unique_ptr<Tok>", "std::make_unique<Tok>(7)")])
    body = "{ %sreturn %s; }" % (void, val)
    S = "struct GENPYBIND(visible) S%s { %%s };" % f
    h.feature("keep_alive/" + kind)
    self_, call = None, None
    if kind == "free":
        h.add("%sinline %s %s(%s) %s" % (A, ret, f, params, body))
        call = "m." + f
    elif kind == "ns":
        h.add("namespace %s_n { %sinline %s %s(%s) %s }" % (f, A, ret, f, params, body))
        call = "m." + f
    elif kind == "template":
        h.add("template <typename T> %s%s %s(%s, T) %s" % (A, ret, f, params, body), "template %s %s(%s, int);" % (ret, f, ", ".join(p.rsplit(" ", 1)[0] for p in params.split(", "))))
        call = "m." + f
    elif kind == "static":
        h.add(S % ("%sstatic %s %s(%s) %s" % (A, ret, f, params, body)))
        call = r.choice(["m.S%s.%s", "m.S%s().%s"]) % (f, f)
    elif kind in ("method", "const"):
        h.add(S % ("%s%s %s(%s) %s%s" % (A, ret, f, params, "const " if kind == "const" else "", body)))
        self_, call = "m.S%s()" % f, "o['this']." + f
    elif kind == "derived":
        h.add("struct GENPYBIND(visible) B%s { %s%s %s(%s) %s };" % (f, A, ret, f, params, body), "struct GENPYBIND(visible) S%s : B%s {};" % (f, f))
        self_, call = "m.S%s()" % f, "o['this']." + f
    elif kind == "call":
        h.add(S % ("%s%s operator()(%s) const %s" % (A, ret, params, body)))
        self_, call = "m.S%s()" % f, "o['this']"
    else:
        h.add(S % ("%sS%s(%s) { %s}" % (A, f, params, void)))
        call = "m.S" + f

    def reach(x):
        out, todo = {x}, [x]
        while todo:
            y = todo.pop()
            for a, b in edges:
                if a == y and b not in out:
                    out.add(b)
                    todo.append(b)
        return out
    hold = nodes if len(nodes) < 4 else r.sample(nodes, 3)
    extra = ", 3" if kind == "template" else ""
    for held in hold:
        argl = ", ".join("o['%s']" % x for x in names) + extra
        code = "import weakref\no = {%s}\n" % ", ".join("'%s': m.Tok(%d)" % (x, i) for i, x in enumerate(names))
        if self_:
            code += "o['this'] = %s\n" % self_
        code += "r_ = %s(%s)\n" % (call, argl)
        code += "o['%s'] = r_\ndel r_\n" % ("this" if kind == "ctor" else "return")
        code += "w = {k: weakref.ref(v) for k, v in o.items()}\nheld = o['%s']\no.clear()\ngc.collect()\n" % held
        code += "first = sorted(k for k in w if w[k]() is not None)\ndel held\ngc.collect()\n_ = [first, sorted(k for k in w if w[k]() is not None)]\n"
        h.probe(code, [sorted(reach(held)), []], "keeping %s of %s" % (held, sorted(edges)))


def policies(h):
    """return_value_policy."""
    r = h.rng
    f = h.id("rp")
    q = (lambda p: "return_value_policy(%s)" % r.choice([p, '"%s"' % p]))
    which = r.choice(["copy", "reference", "reference_internal", "take_ownership", "move", "default_ref", "default_value", "automatic_reference", "other"])
    kind = r.choice(["free", "static", "method"])
    h.feature("policy/" + which)
    h.add("struct GENPYBIND(visible) G%s { Tok t{5}; inline static Tok g{6};" % f)
    h.add("  GENPYBIND(%s) Tok &own_copy() { return t; }" % q("copy"), "  GENPYBIND(%s) Tok &own_ref() { return t; }" % q("reference_internal"),
          "  GENPYBIND(%s) const Tok &own_cref() const { return t; }" % q("reference_internal"), "  Tok &own_default() { return t; }",
          "  GENPYBIND(%s) static Tok &st_ref() { return g; }" % q("reference"), "  GENPYBIND(%s) static Tok *st_ptr() { return &g; }" % q("reference"),
          "  GENPYBIND(%s) Tok *fresh() { return new Tok(9); }" % q("take_ownership"), "  Tok *fresh_default() { return new Tok(9); }", "  GENPYBIND(%s) Tok *copied() { return &t; }" % q("copy"),
          "  GENPYBIND(%s) Tok &moved() { return t; }" % q("move"), "  Tok value() { return t; }", "  GENPYBIND(%s) Tok &auto_() { return t; }" % q("automatic"), "  GENPYBIND(%s) Tok *autoref() { return &t; }" % q("automatic_reference"),
          "  GENPYBIND(%s) Tok &operator()() { return t; }" % q("reference_internal"), "};")
    p = "m.G%s" % f

    def pr(code, want):
        h.probe("def pr_():\n " + code[1:] + "\n return _\n_ = pr_()\n", want)
    pr("@o = %s(); c = o.own_copy(); c.v = 50; d = o.own_default(); d.v = 51; e = o.copied(); e.v = 52; a = o.auto_(); a.v = 53; _ = [o.t.v, c is d, m.Tok.copies >= 4]" % p, [5, False, True])
    pr("@o = %s(); c = o.own_ref(); c.v = 50; _ = [o.t.v, o.own_ref() is c, o.own_cref().v, o().v]" % p, [50, True, 50, 50])
    pr("@o = %s(); c = o.own_ref(); c.v = 61; b = m.Tok.alive; del o; gc.collect(); d = m.Tok.alive; v = c.v; del c; gc.collect(); _ = [b - d, v, b - m.Tok.alive]" % p, [0, 61, 1])
    pr("@o = %s(); c = o(); c.v = 61; del o; gc.collect(); v = c.v; _ = v" % p, 61)
    pr("@c = {0}.st_ref(); c.v = 70; a = {0}.st_ptr().v; b = m.Tok.alive; del c; gc.collect(); _ = [a, {0}.g.v, m.Tok.alive - b]; {0}.g.v = 6".format(p), [70, 70, 0])
    pr("@o = %s(); b = m.Tok.alive; c = o.fresh(); d = o.fresh_default(); e = m.Tok.alive; del c, d; gc.collect(); _ = [e - b, m.Tok.alive - b]" % p, [2, 0])
    pr("@o = %s(); mv = m.Tok.moves; c = o.moved(); _ = [m.Tok.moves - mv >= 1, c.v, o.t.v]" % p, [True, 5, -1])
    pr("@o = %s(); b = m.Tok.alive; c = o.value(); c.v = 8; r = o.autoref(); r.v = 77; _ = [m.Tok.alive - b, o.t.v]; del r; gc.collect(); _ += [o.t.v]" % p, [1, 77, 77])


def free_policies(h):
    r = h.rng
    f = h.id("fp")
    h.add("inline Tok tok_%s{3};" % f, "GENPYBIND(visible, return_value_policy(reference)) inline Tok &ref_%s() { return tok_%s; }" % (f, f), "GENPYBIND(visible) inline Tok &dflt_%s() { return tok_%s; }" % (f, f),
          "GENPYBIND(return_value_policy(copy)) inline Tok *cp_%s() { return &tok_%s; }" % (f, f), "GENPYBIND(return_value_policy(\"reference\"), keep_alive(return, o)) inline Obj &pass_%s(Obj &o, int = 1) { return o; }" % (f,))
    h.probe("@b_ = m.dflt_{0}(); c_ = m.cp_{0}(); b_.v = 31; c_.v = 32; _ = [m.ref_{0}().v, m.dflt_{0}().v]; a_ = m.ref_{0}(); a_.v = 30; _ += [m.ref_{0}().v, m.ref_{0}() is a_, b_ is a_, b_.v, c_.v]; del a_, b_, c_".format(f), [3, 3, 30, True, False, 31, 32])
    h.probe("@o = m.Obj(3); _ = m.pass_{0}(o) is o".format(f), True)


def implicit(h):
    """implicit_conversion names exactly the constructors it is on."""
    r = h.rng
    C, B, f = h.id("C"), h.id("B"), h.id("take")
    # one constructor per source type; 'double' also accepts ints explicitly
    src = [("int", "3", "i3"), ("const std::string &", "'s'", "ss"), (B, "m.%s(4)" % B, "b4"), ("const std::vector<int> &", "[1, 2]", "v2"), ("Obj", "m.Obj(5)", "o5")]
    r.shuffle(src)
    src = src[:r.randrange(2, 6)]
    flags = [r.random() < .45 for _ in src]
    tmpl = r.random() < .2
    late = r.random() < .3 and not tmpl
    bdef = "struct GENPYBIND(visible) %s { int v; %s(int v_) : v(v_) {} };" % (B, B)
    h.add(bdef)
    conv = {"int": "\"i\" + std::to_string(x)", "const std::string &": "\"s\" + x", B: "\"b\" + std::to_string(x.v)", "const std::vector<int> &": "\"v\" + std::to_string(x.size())", "Obj": "\"o\" + std::to_string(x.v)"}
    if late:
        h.add("struct %s;" % C)
    lines = ["  %s%s%s(%s x) : log(%s) {}" % ("GENPYBIND(implicit_conversion%s) " % r.choice(["", "()", "(true)", "(false), implicit_conversion"]) if fl else r.choice(["", "GENPYBIND(visible) ", "GENPYBIND(implicit_conversion(false)) ", "GENPYBIND(implicit_conversion, implicit_conversion(false)) "]), r.choice(["", "explicit "]), C, t, conv[t]) for (t, _, _), fl in zip(src, flags)]
    h.add("%sstruct GENPYBIND(visible) %s { std::string log;" % ("template <typename T> " if tmpl else "", C), *lines, "  %s(int, int) : log(\"two\") {}" % C, "};")
    cn, py = (C + "<int>", C + "_int_") if tmpl else (C, C)
    if tmpl:
        h.add("template struct %s;" % cn)
    h.add("GENPYBIND(visible) inline std::string %s(const %s &c) { return c.log; } GENPYBIND(visible, noconvert(c)) inline std::string %s_n(const %s &c) { return c.log; } struct GENPYBIND(visible) H%s { std::string m(int, %s c) { return c.log; } };" % (f, cn, f, cn, f, cn))
    for (t, a, log), fl in zip(src, flags):
        h.probe("m.%s(%s).log" % (py, a), log)
        h.probe("m.%s(%s)" % (f, a), log if fl else Exc("TypeError"))
        h.probe("m.H%s().m(1, %s)" % (f, a), log if fl else Exc("TypeError"))
        h.probe("m.%s_n(%s)" % (f, a), Exc("TypeError"))
        h.probe("m.%s_n(m.%s(%s))" % (f, py, a), log)
    h.feature("implicit/%d-of-%d" % (sum(flags), len(flags)))


UNITS = [args_unit] * 4 + [overloads, defaults, keep_alive, keep_alive, keep_alive, policies, free_policies, implicit, implicit]


def pybind_args(rng):
    """Parameters following *args (needs pybind11 in the header)."""
    h = H(rng, ["<string>", "<vector>", "<memory>", "<pybind11/pybind11.h>"])
    h.add("struct GENPYBIND(visible, holder_type(\"std::shared_ptr<Sh>\")) Sh { int v; Sh(int v_) : v(v_) {} };", WORLD)
    for i in range(6):
        f = h.id("pa")
        nc, rq = rng.random() < .5, rng.random() < .5
        first = rng.random() < .5
        # (pybind11 2.11 shifts the conversion flags of parameters after *args by one, the last one never
        # converts: only calls that are unaffected by this are made)
        ann = ["visible"] + (["noconvert(k)", "noconvert(l)"] if nc else []) + (["required(o)"] if rq else []) + (["noconvert(a)"] if first else [])
        kw = rng.random() < .4
        h.add("GENPYBIND(%s) inline std::string %s(double a, pybind11::args rest, Obj *o, double k, double l%s) { return rec::all(a, static_cast<int>(rest.size()), o, k, l); }" % (", ".join(ann), f, ", pybind11::kwargs" if kw else ""))
        h.probe("m.%s(1.5, 7, 8, k=2.5, l=3.5, o=m.Obj(3))" % f, "d3;i2;o3;d5;d7;")
        h.probe("m.%s(1.5, 7, 8, k=2, l=3.5, o=m.Obj(3))" % f, Exc("TypeError") if nc else "d3;i2;o3;d4;d7;")
        if rq or not nc:
            h.probe("m.%s(1.5, k=2.5, l=3.5, o=None)" % f, Exc("TypeError") if rq else "d3;i0;null;d5;d7;")
        h.probe("m.%s(1, k=2.5, l=3.5, o=m.Obj(3))" % f, Exc("TypeError") if first else "d2;i0;o3;d5;d7;")
        h.feature("pybind_args")
    return h.case("args/%d" % rng.randrange(10**6))


def tasks(rng, tier):
    out, order = [], []
    quick = tier == "quick"
    for i in range(60 if quick else 2500):
        h = H(rng, ["<string>", "<vector>", "<memory>"])
        h.add("struct GENPYBIND(visible, holder_type(\"std::shared_ptr<Sh>\")) Sh { int v; Sh(int v_) : v(v_) {} };", WORLD)
        for _ in range(7):
            if not order:
                order = list(UNITS)
                rng.shuffle(order)
            u = order.pop()
            h.feature(u.__name__)
            u(h)
        out.append(h.case("policies/%d" % i))
    for i in range(3 if quick else 40):
        out.append(pybind_args(rng))
    return out
