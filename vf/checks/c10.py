"""Exposed enums carry every visible enumerator with its C++ value."""
from ..engine import Exc
from ..gen import H

RULE = ("random enums (scoped/unscoped, every underlying type, boundary values, duplicate values, hidden/renamed/documented enumerators, "
        "opaque declarations, typedef enums, in namespaces, classes, templates, extern C) with random visibility, export_values and "
        "arithmetic annotations; for each the complete member table, values, documentation, the names in the enclosing scope, the set of "
        "operators and the round trip through functions and fields are observed; distinct by header text, non-trivial if an enum was exposed")

UNDER = {"bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-2**15, 2**15 - 1),
         "unsigned short": (0, 2**16 - 1), "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1),
         "unsigned long": (0, 2**64 - 1), "std::int64_t": (-2**63, 2**63 - 1), "std::uint64_t": (0, 2**64 - 1), "std::uint8_t": (0, 255), "char16_t": (0, 65535)}

SETUP = r'''
import operator as op_
def out(f):
    try:
        v = f()
    except TypeError:
        return "TypeError"
    return v if type(v) in (int, bool) else repr(v)
def ops(E, a, b):
    """What the operators of an enum give for two members (and integers)."""
    x, y, i = E.__members__[a], E.__members__[b], int(E.__members__[b])
    res = {}
    for n in ("eq", "ne", "lt", "le", "gt", "ge", "and_", "or_", "xor"):
        f = getattr(op_, n)
        res[n] = [out(lambda: f(x, y)), out(lambda: f(x, i)), out(lambda: f(i, x))]
    res["inv"] = out(lambda: op_.invert(x))
    return res
def table(E):
    return [[k, int(v), v.value, v.name] for k, v in E.__members__.items()]
'''


def lit(v, under):
    if v == -2**63:
        return "(-9223372036854775807L - 1)"
    if v == -2**31:
        return "(-2147483647 - 1)"
    return "%d%s" % (v, "UL" if v >= 2**63 else "L" if abs(v) >= 2**31 else "")


def expected_ops(va, vb, scoped, arith):
    def cmp(n, a, b):
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[n]
    res = {}
    for n in ("eq", "ne"):
        if scoped:
            res[n] = [cmp(n, va, vb), n == "ne", n == "ne"]
        else:
            res[n] = [cmp(n, va, vb)] * 2 + [cmp(n, vb, va)]
    for n in ("lt", "le", "gt", "ge"):
        if not arith:
            res[n] = ["TypeError"] * 3
        elif scoped:
            res[n] = [cmp(n, va, vb), "TypeError", "TypeError"]
        else:
            res[n] = [cmp(n, va, vb), cmp(n, va, vb), cmp(n, vb, va)]
    for n, f in (("and_", lambda: va & vb), ("or_", lambda: va | vb), ("xor", lambda: va ^ vb)):
        res[n] = [f()] * 3 if arith and not scoped else ["TypeError"] * 3
    res["inv"] = ~va if arith and not scoped else "TypeError"
    return res


WORDS = ["the red one", "first of all", "ünïcode \u2713", "with \"quotes\" and \\ backslash", "a % sign %d", "x < y && z", "tab-free text.", "value: 5", "trigraph ??/ ok", "don't panic"]


def enum_unit(h):
    r = h.rng
    E, fn = h.id("E"), h.id("f")
    scoped = r.random() < .5
    under = r.choice(sorted(UNDER)) if r.random() < .6 else None
    lo, hi = UNDER[under or "int"]
    if under is None and not scoped and r.random() < .3:
        lo, hi = r.choice([(-2**63, 2**63 - 1), (0, 2**64 - 1), (-2**31, 2**31 - 1)])
    cur, items = -1, []
    n = r.choice([0, 1, 2, 2, 3, 4, 5, 8])
    for i in range(n):
        x = r.random()
        if x < .35 and cur + 1 <= hi:
            v, text = cur + 1, None
        elif x < .5 and items:
            v = r.choice(items)["v"]
            text = r.choice([lit(v, under), next(it["c"] for it in items if it["v"] == v)])
        else:
            v = r.choice([lo, hi, 0, 1, -1, 2, 5, r.randrange(lo, hi + 1), 97, 127])
            v = min(max(v, lo), hi)
            text = lit(v, under)
            if r.random() < .15 and 0 <= v <= hi and text.isdigit():
                text = hex(v)
        cur = v
        c = "%s_%s%d" % (E.lower(), r.choice(["a", "val", "kValue", "FOO", "_x"]), i)
        items.append({"c": c, "v": v, "text": text, "vis": r.random() < .85, "name": c if r.random() < .75 else c + "_py", "doc": r.choice(WORDS) if r.random() < .35 else None,
                      "explicit": r.random() < .2})
    default_hidden = r.random() < .0
    export = r.choice([None, None, None, True, False])
    arith = r.choice([None, None, True, True, False])
    place = r.choice(["top", "top", "namespace", "module", "class", "class", "template", "extern", "inherit", "inherit_class", "opaque", "opaque_class", "typedef", "expose_here", "alias"])
    if place in ("typedef", "alias", "opaque", "opaque_class") and under is None:
        under_t = None
    under_t = under
    if place in ("opaque", "opaque_class") and under is None:
        if not scoped:
            under_t = "long" if lo < -2**31 or (hi > 2**31 and hi < 2**64 - 1) else "unsigned long" if hi > 2**63 else "int"
    if place == "typedef" and scoped:
        place = "top"
    ann = []
    if export is not None:
        ann.append("export_values" + ("" if export and r.random() < .7 else "(true)" if export else "(false)"))
    if arith is not None:
        ann.append("arithmetic" + ("" if arith and r.random() < .7 else "(true)" if arith else "(false)"))
        if r.random() < .25:
            # the last one counts
            ann[-1] = "arithmetic%s, %s" % ("(false)" if arith else r.choice(["", "(true)"]), ann[-1])
    pyname = E
    if r.random() < .2 and place not in ("expose_here",):
        pyname = E + "Renamed"
        ann.append(r.choice(["expose_as(%s)", 'expose_as("%s")']) % pyname)
    r.shuffle(ann)
    if place not in ("inherit", "inherit_class", "expose_here") and (not ann or r.random() < .5):
        ann.insert(0, r.choice(["visible", "visible(true)"]))
    if place == "expose_here":
        ann = [a for a in ann if "visible" not in a]
    doc = r.choice(WORDS) if r.random() < .3 else None
    A = "GENPYBIND(%s) " % ", ".join(ann) if ann else ""
    D = "/// %s\n" % doc if doc else ""

    def body():
        out = []
        for it in items:
            a = []
            if it["name"] != it["c"]:
                a.append("expose_as(%s)" % it["name"])
            if not it["vis"]:
                a.append(r.choice(["hidden", "visible(false)"]))
            elif it["explicit"]:
                a.append("visible")
            if r.random() < .3 and len(a) > 1 and it["vis"]:
                a.reverse()
            style = r.choice(["  /// %s", "  /** %s */", "  //! %s", "  /// \\brief %s", "  /*! %s */", "<"])
            if it["doc"] and style != "<":
                out.append(style % it["doc"])
            out.append("  %s%s%s,%s" % (it["c"], " GENPYBIND(%s)" % ", ".join(a) if a else "", " = " + it["text"] if it["text"] else "",
                                        "  ///< " + it["doc"] if it["doc"] and style == "<" else ""))
        return "{\n%s\n}" % "\n".join(out)
    kw = "enum class " if scoped and r.random() < .7 else "enum struct " if scoped else "enum "
    U = " : " + under_t if under_t else ""
    B = body()
    h.feature("place/" + place)
    h.feature("under/%s" % under_t)
    cpp, scope = E, ""
    fdecl = None
    if place in ("top",):
        h.add("%s%s%s%s%s %s;" % (D, kw, A, E, U, B))
    elif place == "extern":
        h.add("extern \"C++\" {\n%s%s%s%s%s %s;\n}" % (D, kw, A, E, U, B))
    elif place == "namespace":
        h.add("namespace N%s {\n%s%s%s%s%s %s;\n}" % (E, D, kw, A, E, U, B))
        cpp = "N%s::%s" % (E, E)
    elif place in ("module", "inherit"):
        if place == "inherit":
            pyname = pyname if "expose_as" in A else E
        h.add("namespace N%s GENPYBIND(module%s) {\n%s%s%s%s%s %s;\n}" % (E, ", visible" if place == "inherit" else "", D, kw, A, E, U, B))
        cpp, scope = "N%s::%s" % (E, E), "N%s." % E
    elif place in ("class", "inherit_class"):
        h.add("struct GENPYBIND(visible) C%s {\n%s%s%s%s%s %s;\n};" % (E, D, kw, A, E, U, B))
        cpp, scope = "C%s::%s" % (E, E), "C%s." % E
    elif place == "template":
        h.add("template <typename T> struct GENPYBIND(visible) C%s {\n%s%s%s%s%s %s;\n};\ntemplate struct C%s<int>;" % (E, D, kw, A, E, U, B, E))
        cpp, scope = "C%s<int>::%s" % (E, E), "C%s_int_." % E
    elif place == "opaque":
        one, two = (A, "") if r.random() < .5 else ("", A)
        h.add("%s%s%s%s;" % (kw, one, E, U), "%s%s%s%s%s %s;" % (D, kw, two, E, U, B))
    elif place == "opaque_class":
        h.add("struct GENPYBIND(visible) C%s { %s%s%s%s; };" % (E, kw, A, E, U), "%s%sC%s::%s%s %s;" % (D, kw, E, E, U, B))
        cpp, scope = "C%s::%s" % (E, E), "C%s." % E
    elif place == "typedef":
        h.add("%stypedef enum %s%s %s %s;" % (D, A, U, B, E))
    elif place == "expose_here":
        h.add("namespace N%s {\n%s%s%s%s%s %s;\n}" % (E, D, kw, A, E, U, B), "struct GENPYBIND(visible) C%s { typedef N%s::%s %sHere GENPYBIND(expose_here); };" % (E, E, E, E))
        cpp, scope, pyname = "N%s::%s" % (E, E), "C%s." % E, E + "Here"
    else:
        h.add("namespace N%s GENPYBIND(module) {\n%s%s%s%s%s %s;\n}" % (E, D, kw, A, E, U, B), "GENPYBIND(visible) typedef N%s::%s %sAlias;" % (E, E, E) if r.random() < .5 else "using %sAlias GENPYBIND(visible) = N%s::%s;" % (E, E, E))
        cpp, scope = "N%s::%s" % (E, E), "N%s." % E
        h.probe("m.%sAlias is m.%s%s" % (E, scope, pyname), True)
    e = "m." + scope + pyname
    vis = [it for it in items if it["vis"]]
    first = {}
    for it in vis:
        first.setdefault(it["v"], it["name"])
    h.probe("[is_enum(%s), %s.__name__, table(%s)]" % (e, e, e), [True, pyname, [[it["name"], it["v"], it["v"], first[it["v"]]] for it in vis]])
    h.probe("sorted(own(%s))" % e, sorted(it["name"] for it in vis))
    # documentation
    h.probe("%s.__doc__" % e, (doc + "\n\n" if doc else "") + "Members:" + "".join("\n\n  " + it["name"] + (" : " + it["doc"] if it["doc"] else "") for it in vis))
    # names in the enclosing scope
    exported = (not scoped) if export is None else export
    parent = "m" if not scope else "m." + scope[:-1]
    h.probe("sorted(k for k in vars(%s) if k.startswith('%s_'))" % (parent, E.lower()), sorted(it["name"] for it in vis) if exported else [])
    if scope:
        h.probe("[k for k in vars(m) if k.startswith('%s_')]" % E.lower(), [])
    if exported and vis:
        h.probe("all(%s.%s is %s.%s for k_ in [0])" % (parent, vis[0]["name"], e, vis[0]["name"]), True)
        h.probe("[int(getattr(%s, k)) for k in %r]" % (parent, [it["name"] for it in vis]), [it["v"] for it in vis])
    # operators
    if vis:
        for _ in range(2):
            a, b = r.choice(vis), r.choice(vis)
            h.probe("ops(%s, %r, %r)" % (e, a["name"], b["name"]), expected_ops(a["v"], b["v"], scoped, bool(arith)))
    # values passed to and from functions
    h.add("GENPYBIND(visible) inline %s %s(%s e) { return e; }" % (cpp, fn, cpp),
          "GENPYBIND(visible) inline std::string %s_n(%s e) { switch (e) { %sdefault: return \"?\"; } }" % (
              fn, cpp, "".join("case %s::%s: return \"%s\"; " % (cpp, it["c"], it["c"]) for it in {it["v"]: it for it in reversed(items)}.values())),
          "GENPYBIND(visible) inline std::vector<%s> %s_all() { return {%s}; }" % (cpp, fn, ", ".join("%s::%s" % (cpp, it["c"]) for it in items)),
          "struct GENPYBIND(visible) H%s { %s v{}; static void take(%s &e) { (void)e; } };" % (fn, cpp, cpp))
    name_of = {}
    for it in items:
        name_of.setdefault(it["v"], it["c"])
    h.probe("[[m.{0}(x) == x, type(m.{0}(x)) is {1}, int(m.{0}(x)), m.{0}_n(x)] for x in {1}.__members__.values()]".format(fn, e), [[True, True, it["v"], name_of[it["v"]]] for it in vis])
    h.probe("[int(x) for x in m.%s_all()]" % fn, [it["v"] for it in items])
    h.probe("[int({0}(i)) for i in {1}]".format(e, [it["v"] for it in items]), [it["v"] for it in items])
    h.probe("m.%s(%s)" % (fn, "'x'"), Exc("TypeError"))
    h.probe("m.%s(m.Other.o1)" % fn, Exc("TypeError"))
    h.probe("m.%s(0)" % fn, Exc("TypeError"))
    if vis:
        x = r.choice(vis)
        h.probe("@h_ = m.H%s(); h_.v = %s.%s; _ = [int(h_.v), h_.v == %s.%s, hash(h_.v) == hash(%s.%s)]" % (fn, e, x["name"], e, x["name"], e, x["name"]), [x["v"], True, True])


def hidden_unit(h):
    """Enums that are not exposed leave nothing behind."""
    r = h.rng
    E = h.id("Z")
    kind = r.choice(["plain", "hidden", "private", "unnamed", "annotated_value", "hidden_in_visible", "no_expose_local"])
    h.feature("hidden/" + kind)
    n = E.lower()
    if kind == "plain":
        h.add("enum %s { %s_a, %s_b };" % (E, n, n))
    elif kind == "hidden":
        h.add("enum GENPYBIND(hidden%s) %s { %s_a, %s_b };" % (r.choice(["", ", export_values", ", arithmetic"]), E, n, n))
    elif kind == "private":
        h.add("class GENPYBIND(visible) P%s { enum %s { %s_a, %s_b }; protected: enum class Q%s { %s_c }; };" % (n, E, n, n, E, n))
    elif kind == "unnamed":
        h.add("enum { %s_a, %s_b };" % (n, n))
    elif kind == "annotated_value":
        h.add("enum %s { %s_a, %s_b };" % (E, n, n), "struct GENPYBIND(visible) P%s { %s x = %s_a; };" % (n, E, n))
    elif kind == "hidden_in_visible":
        h.add("namespace n%s GENPYBIND(visible) { enum GENPYBIND(hidden) %s { %s_a, %s_b }; enum class Vis%s { ok }; }" % (n, E, n, n, n))
        h.probe("[int(m.Vis%s.ok), hasattr(m, 'ok')]" % n, [0, False])
    else:
        h.add("GENPYBIND(visible) inline int fl_%s() { enum %s { %s_a = 4, %s_b }; return %s_a; }" % (n, E, n, n, n))
        h.probe("m.fl_%s()" % n, 4)
    h.probe("sorted(k for k in api(m) if k.rsplit('.', 1)[-1].startswith(('%s_', '%s', 'Q%s')))" % (n, E, E), [])


def tasks(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 2500):
        h = H(rng, ["<string>", "<vector>", "<cstdint>"])
        h.setup.append(SETUP)
        h.add("enum class GENPYBIND(visible) Other { o1, o2 };")
        for _ in range(6):
            enum_unit(h)
        hidden_unit(h)
        out.append(h.case("enums/%d" % i))
    return out
