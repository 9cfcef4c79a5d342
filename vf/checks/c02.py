"""Each exposed declaration appears once, under its name, in the right scope."""
from ..engine import Exc, Pred
from ..gen import H, VAL, batch
from ..world import world_case

RULE = ("random annotated programs with renamings, sub-modules, transparent and reopened namespaces, aliases, "
        "expose_here and encourage, whose complete module interface (dotted name and kind of every attribute) and the "
        "number behind each attribute is compared with a naming model; a case is distinct by header text and "
        "non-trivial if compiled, imported and compared")


def forward_alias(h):
    r = h.rng
    t, a, ns = h.id("Tgt"), h.id("al"), h.id("ns")
    how = r.choice(["visible", "expose_here"])
    sp = r.random() < .5
    pn = h.id("Py") if sp else a
    h.add("namespace %s { struct %s; }" % (ns, t),
          "using %s GENPYBIND(%s%s) = %s::%s;" % (a, how, ', expose_as(%s)' % pn if sp else "", ns, t),
          "namespace %s { struct %s %s { int f = 4; }; }" % (ns, "GENPYBIND(visible)" if how == "visible" else "", t))
    if how == "visible":
        h.probe("m.%s is m.%s" % (pn, t), True)
    else:
        h.probe("[m.%s.__name__, m.%s.__qualname__, hasattr(m, %r), m.%s().f]" % (pn, pn, t, pn), [pn, pn, False, 4])


def alias_chain(h):
    r = h.rng
    t = h.id("Tgt")
    tag = r.choice(["struct GENPYBIND(visible) %s { int f = 4; };", "enum class GENPYBIND(visible) %s { a };"])
    h.add(tag % t)
    prev = t
    for _ in range(r.randrange(1, 5)):
        a = h.id("al")
        vis = r.random() < .6
        h.add(r.choice(["using %s %s = %s;" % (a, "GENPYBIND(visible)" if vis else "", prev),
                        "typedef %s %s %s;" % (prev, a, "GENPYBIND(visible)" if vis else "")]))
        h.probe("getattr(m, %r, None) is %s" % (a, "m." + t if vis else "None"), True)
        prev = a


def same_name_everywhere(h):
    """The same C++ name in many scopes; each one lands in its own scope."""
    r = h.rng
    name = h.id("same")
    scopes = []
    for _ in range(r.randrange(2, 6)):
        s = h.id("sc")
        kind = r.choice(["module", "modname", "modas", "class", "classas"])
        py = h.id("PySc") if kind in ("modname", "modas", "classas") else s
        k = r.randrange(1000)
        fpy = h.id("renamed") if r.random() < .3 else name
        a = "GENPYBIND(expose_as(%s))" % fpy if fpy != name else ""
        if kind.startswith("mod"):
            ann = {"module": "module", "modname": 'module("%s")' % py, "modas": "module, expose_as(%s)" % py}[kind]
            h.add("namespace %s GENPYBIND(visible, %s) { %s inline int %s() { return %d; } }" % (s, ann, a, name, k))
        else:
            h.add("struct GENPYBIND(%s) %s { %s static int %s() { return %d; } };" % (
                "visible" if kind == "class" else "expose_as(%s)" % py, s, a, name, k))
        scopes.append((py, fpy, k))
    for py, fpy, k in scopes:
        h.probe("m.%s.%s()" % (py, fpy), k)
        h.probe("[x for x in dir(m.%s) if x[0] != '_']" % py, [fpy])
    h.probe("hasattr(m, %r)" % name, False)


def nested_modules(h):
    """Namespaces nested in any mix of modules and transparent ones."""
    r = h.rng
    path, depth = [], r.randrange(2, 6)
    opened = []
    for _ in range(depth):
        n = h.id("ns")
        mod = r.random() < .6
        py = h.id("sub") if mod and r.random() < .5 else n
        ann = [] if not mod else (["module"] if py == n else ['module("%s")' % py])
        h.add("namespace %s %s {" % (n, "GENPYBIND(%s)" % ", ".join(ann) if ann else ""))
        if mod:
            path = path + [py]
        f, k = h.id("fn"), r.randrange(1000)
        h.add("GENPYBIND(visible) inline int %s() { return %d; }" % (f, k))
        p = ".".join(["m"] + path)
        h.probe("%s.%s()" % (p, f), k)
        h.probe("sum(1 for q in api(m) if q.split('.')[-1] == %r)" % f, 1)
    h.add("}" * depth)


def relocate(h):
    """expose_here out of a visible scope, possibly across modules, with nested content."""
    r = h.rng
    src, dst, t, a = h.id("src"), h.id("dst"), h.id("Tgt"), h.id("al")
    inner = h.id("Inner")
    src_kind = r.choice(["class", "module", "ns", "hidden"])
    dst_kind = r.choice(["class", "module", "root"])
    tag = r.choice(["class", "scoped", "unscoped"])
    en = h.id("en")
    # the alias decides, whatever the target says about itself
    own_name = h.id("Own")
    own = r.choice(["", "", "GENPYBIND(expose_as(%s))" % own_name, "GENPYBIND(visible, expose_as(%s))" % own_name,
                    "GENPYBIND(visible)", "GENPYBIND(hidden)", "GENPYBIND(hidden, expose_as(%s))" % own_name])
    body = {"class": "struct %s %s { struct %s { int v = 3; }; int w = 5; };" % (own, t, inner),
            "scoped": "enum class %s %s { %s = 9 };" % (own, t, en),
            "unscoped": "enum %s %s { %s = 9 };" % (own, t, en)}[tag]
    other = h.id("other")
    h.add({"class": "struct GENPYBIND(visible) %s { %s static int %s() { return 1; } };",
           "module": "namespace %s GENPYBIND(visible, module) { %s inline int %s() { return 1; } }",
           "ns": "namespace %s GENPYBIND(visible) { %s inline int %s() { return 1; } }",
           "hidden": "namespace %s { %s inline int %s() { return 1; } }"}[src_kind] % (src, body, other))
    pn = h.id("Py") if r.random() < .5 else a
    al = "using %s GENPYBIND(expose_here%s) = ::%s::%s;" % (a, "" if pn == a else ", expose_as(%s)" % pn, src, t)
    if dst_kind == "class":
        h.add("struct GENPYBIND(visible) %s { %s };" % (dst, al))
    elif dst_kind == "module":
        h.add("namespace %s GENPYBIND(module) { %s }" % (dst, al))
    else:
        h.add(al)
    d = "m" if dst_kind == "root" else "m." + dst
    h.probe("kind(%s.%s)" % (d, pn), "class" if tag == "class" else "enum")
    if tag == "class":
        h.probe("[%s.%s().w, %s.%s.%s().v]" % (d, pn, d, pn, inner), [5, 3])
    else:
        h.probe("int(%s.%s.%s)" % (d, pn, en), 9)
        h.probe("hasattr(%s, %r)" % (d, en), tag == "unscoped")
    h.probe("sorted(q for q in api(m) if q.split('.')[-1] in %r)" % ([t, a, pn, inner, own_name],),
            sorted([(d + "." + pn)[2:]] + ([(d + "." + pn + "." + inner)[2:]] if tag == "class" else [])))


def encouraged(h):
    r = h.rng
    scope, t, a = h.id("sc"), h.id("Tgt"), h.id("al")
    mod = r.random() < .5
    own, tn = r.choice([("", t), ("", t), ("GENPYBIND(hidden)", t), ("GENPYBIND(expose_as(Own%s))" % t, "Own" + t),
                        ("GENPYBIND(hidden, expose_as(Own%s))" % t, "Own" + t)])
    h.add("namespace %s %s { struct %s %s { int w = 8; }; struct Other_%s { }; }" % (
        scope, "GENPYBIND(module)" if mod else "", own, t, t))
    hide = r.random() < .4
    parts = ["encourage"] + (["hidden"] if hide else [])
    r.shuffle(parts)
    h.add("using %s GENPYBIND(%s) = %s::%s;" % (a, ", ".join(parts), scope, t))
    p = "m.%s.%s" % (scope, tn) if mod else "m." + tn
    h.probe("%s().w" % p, 8)
    h.probe("getattr(m, %r, None) is %s" % (a, "None" if hide else p), True)
    h.probe("sum(1 for q in api(m) if 'Other_%s' in q)" % t, 0)


def renamed_members(h):
    """expose_as on every kind of member."""
    r, c = h.rng, h.id("Ren")
    items, want = [], {}
    for i in range(r.randrange(4, 9)):
        n, p = "c%d" % i, r.choice(["py_%d", "P%d", "_u%d", "with_digit_%d"]) % i
        sp = r.choice(["expose_as(%s)", 'expose_as("%s")', "visible, expose_as(%s)", "expose_as(%s), visible"]) % p
        kind = r.choice(["int %s() const { return %d; }", "static int %s() { return %d; }", "int %s = %d;",
                         "inline static int %s = %d;", "const int %s = %d;"])
        items.append("GENPYBIND(%s) " % sp + kind % (n, i))
        want[p] = i
    # call operators
    called = []
    for args in ("", "int", "int, int"):
        if r.random() < .6:
            k = 50 + len(args)
            if r.random() < .5:
                items.append("GENPYBIND(expose_as(call_%d)) int operator()(%s) const { return %d; }" % (k, args, k))
                called.append(("call_%d" % k, args.count("int"), k))
            else:
                items.append("int operator()(%s) const { return %d; }" % (args, k))
                called.append(("__call__", args.count("int"), k))
    # member templates and conversion functions
    if r.random() < .5:
        items.append("template <typename T> GENPYBIND(expose_as(tpl_py)) int ct(T) const { return 70; }")
        called.append(("tpl_py", 1, 70))
    h.add("struct GENPYBIND(visible) %s {" % c, *items)
    h.add("};")
    if ("tpl_py", 1, 70) in called:
        h.add("template int %s::ct<int>(int) const;" % c)
    for n, argc, k in called:
        h.probe("m.%s().%s(%s)" % (c, n, ", ".join("1" * argc)), k)
    h.probe("sorted(k for k in vars(m.%s) if k.startswith(('call_', '__call', 'tpl_', 'ct')))" % c, sorted({n for n, _, _ in called}))
    h.probe("{k: (lambda v: v() if callable(v) else v)(getattr(m.%s(), k)) for k in %r}" % (c, sorted(want)), want)
    h.probe("[k for k in dir(m.%s) if k[0] == 'c' and k[1:].isdigit()]" % c, [])


def named_scopes(h):
    """Scopes under another Python name; what they contain is found there."""
    r = h.rng
    lines, close, path, k = [], [], ["m"], r.randrange(100)
    for _ in range(r.randrange(1, 5)):
        n = h.id("sc")
        py = r.choice([n, h.id("Py")])
        if not close or close[-1] == "}":
            kind = r.choice(["mod", "mod", "ns", "cls"])
        else:
            kind = "cls"
        if kind == "mod":
            ann = ["module"] if py == n else r.choice([["module(%s)" % py], ['module("%s")' % py], ["module", "expose_as(%s)" % py],
                                                       ["expose_as(%s)" % py, "module"], ["visible", "module(%s)" % py]])
            lines.append("namespace %s GENPYBIND(%s) {" % (n, ", ".join(ann)))
            path.append(py)
        elif kind == "ns":
            lines.append("namespace %s %s {" % (n, r.choice(["", "GENPYBIND(visible)", "GENPYBIND(hidden)"])))
        else:
            lines.append("struct GENPYBIND(visible%s) %s {" % ("" if py == n else ", expose_as(%s)" % py, n))
            path.append(py)
        close.append("};" if kind == "cls" else "}")
    cls = close[-1] == "};"
    f, e, c = h.id("fn"), h.id("En"), h.id("Cl")
    h.add(*lines)
    h.add("GENPYBIND(visible) %s int %s() { return %d; }" % ("static" if cls else "inline", f, k),
          "enum GENPYBIND(visible) %s { %s_a = %d };" % (e, e, k), "struct GENPYBIND(visible) %s { int w = %d; };" % (c, k))
    h.add(*reversed(close))
    p = ".".join(path)
    h.probe("[%s.%s(), int(%s.%s.%s_a), int(%s.%s_a), %s.%s().w]" % (p, f, p, e, e, p, e, p, c), [k] * 4)
    h.probe("[sum(1 for q in api(m) if q.split('.')[-1] == n) for n in %r]" % ([f, e, c],), [1, 1, 1])
    h.probe("%s.%s.__qualname__" % (p, c), Pred("a qualified name ending in the name", lambda v: v.endswith(c)))


def overload_names(h):
    """Overloads under different names; one name for different functions."""
    r, f = h.rng, h.id("ov")
    names = [f, f + "_x", f + "_y"]
    cls = r.random() < .5
    lines, by = [], {}
    for argc in range(r.randrange(2, 6)):
        n = r.choice(names)
        lines.append("%s %s int %s(%s) { return %d; }" % (
            "GENPYBIND(expose_as(%s))" % n if n != f else "GENPYBIND(visible)", "" if cls else "inline", f,
            ", ".join(["int"] * argc), 100 + argc))
        by.setdefault(n, []).append(argc)
    other = r.choice(names)
    lines.append("GENPYBIND(expose_as(%s)) %s int zz_%s(int, int, int, int, int, int, int) { return 107; }" % (other, "" if cls else "inline", f))
    by.setdefault(other, []).append(7)
    h.add(*(["struct GENPYBIND(visible) C_%s {" % f] + lines + ["};"] if cls else lines))
    o = "m.C_%s()" % f if cls else "m"
    for n in names:
        h.probe("hasattr(%s, %r)" % (o, n), n in by)
        for argc in list(range(5)) + [7]:
            if n in by:
                h.probe("%s.%s(%s)" % (o, n, ", ".join(["0"] * argc)), 100 + argc if argc in by[n] else Exc("TypeError"))


def alias_of_relocated(h):
    """Aliases of moved types, before and after the move, are the same object."""
    r = h.rng
    src, t, a = h.id("src"), h.id("Tgt"), h.id("here")
    v = [h.id("va") for _ in range(3)]
    moved = "using %s GENPYBIND(expose_here) = %s::%s;" % (a, src, t)
    parts = ["using %s GENPYBIND(visible) = %s::%s;" % (v[0], src, t),
             "namespace %s_m GENPYBIND(module) { using %s GENPYBIND(visible) = ::%s::%s; }" % (v[1], v[1], src, t),
             "struct GENPYBIND(visible) %s_c { typedef %s::%s %s GENPYBIND(visible); };" % (v[2], src, t, v[2]), moved]
    r.shuffle(parts)
    h.add("namespace %s { struct %s { int q = 6; }; }" % (src, t), *parts)
    h.probe("[m.%s().q, m.%s is m.%s, m.%s_m.%s is m.%s, m.%s_c.%s is m.%s, hasattr(m, %r), m.%s.__name__]" % (
        a, v[0], a, v[1], v[1], a, v[2], v[2], a, t, a), [6, True, True, True, False, a])


def nominated(h):
    """Inline namespaces and using-directives add nothing: each declaration has
    one place and, for functions, one overload."""
    r = h.rng
    inl, src, use = h.id("inl"), h.id("src"), h.id("use")
    f, g, k, e, c, v = (h.id(x) for x in ("fi", "fs", "fu", "En", "Cl", "va"))
    mod = r.random() < .5
    vis = r.random() < .5
    a = "" if vis else "GENPYBIND(visible)"
    outer = h.id("outer")
    h.add("namespace %s GENPYBIND(%smodule) {" % (outer, "visible, " if vis else ""),
          "inline namespace %s {" % inl,
          "%s inline int %s() { return 1; } %s inline int %s(int) { return 2; } enum %s %s { %s_a = 3 }; struct %s %s { int w = 4; }; %s inline int %s = 5;" % (
              a, f, a, f, a, e, e, a, c, a, v), "}",
          "namespace %s %s { %s inline int %s() { return 6; } }" % (src, "GENPYBIND(module)" if mod else "", a, g),
          "namespace %s GENPYBIND(module) { using namespace %s; %s inline int %s() { return 7; } }" % (use, src, a, k), "}",
          "using namespace %s;" % outer)
    if r.random() < .5:
        h.add("namespace %s_late GENPYBIND(visible, module) { using namespace %s::%s; inline int late_%s() { return 8; } }" % (use, outer, use, k))
        h.probe("[q for q in dir(m.%s_late) if q[0] != '_']" % use, ["late_" + k])
    o = "m." + outer
    h.probe("[%s.%s(), %s.%s(0), int(%s.%s.%s_a), int(%s.%s_a), %s.%s().w, %s.%s]" % (o, f, o, f, o, e, e, o, e, o, c, o, v),
            [1, 2, 3, 3, 4, 5])
    h.probe("[%s.%s%s(), %s.%s.%s()]" % (o, src + "." if mod else "", g, o, use, k), [6, 7])
    h.probe("[sum(1 for q in api(m) if q.split('.')[-1] == n) for n in %r]" % ([f, e, c, v, g, k],), [1] * 6)
    h.probe("%s.%s.__doc__.count('%s(')" % (o, f, f), Pred("one line per overload", lambda n: n in (2, 3)))
    h.probe("%s.%s%s.__doc__.count('%s(')" % (o, src + "." if mod else "", g, g), 1)


UNITS = [nominated, named_scopes, named_scopes, overload_names, alias_of_relocated, forward_alias, alias_chain, same_name_everywhere, nested_modules, relocate, encouraged, renamed_members]


def tasks(rng, tier):
    n = 110 if tier == "quick" else 2000
    out = [world_case(rng, "world/%d" % i, budget=rng.choice([8, 16, 26, 36]), explicit=.35, rename=rng.choice([.1, .4, .7]))
           for i in range(n)]
    out += batch(rng, "units", UNITS, 34 if tier == "quick" else 500, 10)
    return out
