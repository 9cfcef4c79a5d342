"""Derived identifiers are valid and never collide."""
import re

from ..engine import Case
from ..gen import H, PRE, batch
from ..inproc import harness_task

RULE = ("identifier derivation is compared with a model for all strings up to length 5 (6 thorough) over a "
        "representative alphabet, all byte pairs and random byte strings (in process, under ASan/UBSan); end to end, "
        "headers with unusual file names are imported under the derived module name, template instantiations are "
        "looked up under the derived name, and families of declarations whose qualified names fall together are "
        "compiled and each checked to be present with its own content; distinct by header text and file name")
EXE = ("c14", ["c14.cpp"], ["src/string_utils.cpp"])


def ident(s):
    """The model: runs of other characters become one underscore."""
    s = re.sub(r"\A[^A-Za-z_]+", "_", s)
    return re.sub(r"[^A-Za-z0-9_]+", "_", s)


FILES = ["my-module.h", "3d.h", "a b.h", "a.b.c.h", "x--y.hpp", "+.h", "_ok_.h", "Ünïcode.h", "99.h", "a+b=c.h", "if.h",
         "trailing-.h", "9.9.h", "no_ext", "x@y#z.h", ".dot.h", "UPPER-lower_1.hh", "a__b.h", "-lead.h", "日本.h", "m,n.h",
         "(p).h", "a~.h", "0x1F.h", "__dunder__.h", "tab\there.h"]


def stem(name):
    base = name
    i = base.rfind(".")
    return base if i <= 0 and base != ".." and i != 0 else (base[:i] if i > 0 else base)


def file_case(rng, i, name):
    mod = ident(stem(name))
    k = rng.randrange(1000)
    h = PRE + "GENPYBIND(visible) inline int f() { return %d; }\n" \
        "namespace only GENPYBIND(visible, only_expose_in(%s)) { inline int g() { return 7; } }\n" % (k, mod)
    return Case("file/%s" % name.encode().hex(), h, [("m.f()", k), ("m.__name__", mod), ("m.g()", 7)], module=mod,
                main_name=name, features=["file-name"])


def random_file(rng):
    return "".join(rng.choice("abcXYZ_0189-+.,=@~() éß") for _ in range(rng.randrange(1, 12))).strip(". -") + ".h"


def module_option(rng, i):
    mod = rng.choice(["given", "_x", "Abc_1", "z9"])
    return Case("module-name/%d" % i, PRE + "GENPYBIND(visible) inline int f() { return 3; }\n",
                [("m.f()", 3), ("m.__name__", mod)], module=mod, main_name=rng.choice(["other.h", "a-b.h"]),
                tool_args=["--module-name", mod] if rng.random() < .5 else ["--module-name=" + mod],
                features=["module-name"])


ARGS = ["int", "unsigned long", "int *", "const int", "const char *", "bool", "double", "ns%d::X", "ns%d::X *", "ns%d::X::Y",
        "int **", "int &", "int &&", "void", "unsigned char", "const ns%d::X &"]


def template_names(h):
    """Names of template instantiations."""
    r, t, nsn = h.rng, h.id("Tp"), h.n
    h.add("namespace ns%d { struct X { struct Y {}; }; }" % nsn)
    two = r.random() < .4
    h.add("template <typename A%s> struct GENPYBIND(visible) %s { static int ident() { return 0; } };" % (
        ", typename B" if two else "", t))
    seen = {}
    for k in range(r.randrange(2, 7)):
        args = [a % nsn if "%d" in a else a for a in (r.choice(ARGS) for _ in range(2 if two else 1))]
        name = ident("%s<%s>" % (t, ", ".join(args)))
        spec = "%s<%s>" % (t, ", ".join(args))
        if name in seen or spec in [s for s, _ in seen.values()]:
            continue
        seen[name] = (spec, k + 1)
        h.add("template <> struct GENPYBIND(visible) %s { static int ident() { return %d; } };" % (spec, k + 1))
    h.probe("{k: v.ident() for k, v in vars(m).items() if k.startswith('%s_')}" % t, {n: k for n, (_, k) in seen.items()})


def template_values(h):
    r, t = h.rng, h.id("Tv")
    h.add("template <int N, bool B, char C> struct GENPYBIND(visible) %s { static int ident() { return N * 1000 + B * 500 + C; } };" % t)
    want = {}
    for _ in range(r.randrange(1, 5)):
        n, b, c = r.choice([0, 1, -1, 42, -300]), r.random() < .5, r.choice("aZ_7")
        name = ident("%s<%d, %s, '%s'>" % (t, n, str(b).lower(), c))
        if name in want:
            continue
        want[name] = n * 1000 + b * 500 + ord(c)
        h.add("template struct %s<%d, %s, '%s'>;" % (t, n, str(b).lower(), c))
    h.probe("{k: v.ident() for k, v in vars(m).items() if k.startswith('%s_')}" % t, want)


def collisions(h):
    """Different entities whose qualified names become the same identifier."""
    r = h.rng
    base = [h.id("t") for _ in range(r.randrange(2, 5))]
    used = set()
    want = []
    for _ in range(r.randrange(2, 9)):
        seps = [r.choice(["::", "_"]) for _ in base[1:]]
        q = base[0]
        for s, w in zip(seps, base[1:]):
            q += s + w
        if r.random() < .4:
            q += r.choice(["_2", "_3", "_2_2", "_1"])
        if q in used:
            continue
        used.add(q)
        parts = q.split("::")
        k = r.randrange(10000)
        py = h.id("Py")
        kind = r.choice(["struct", "enum", "module"])
        if kind == "struct":
            inner = "struct GENPYBIND(expose_as(%s)) %s { static int ident() { return %d; } };" % (py, parts[-1], k)
            want.append(("m.%s.ident()" % py, k))
        elif kind == "enum":
            inner = "enum class GENPYBIND(expose_as(%s)) %s { v = %d };" % (py, parts[-1], k)
            want.append(("int(m.%s.v)" % py, k))
        else:
            inner = "namespace %s GENPYBIND(module(%s), visible) { inline int ident() { return %d; } }" % (parts[-1], py, k)
            want.append(("m.%s.ident()" % py, k))
        # parents are namespaces; the last component must not be one already
        scope = "::".join(parts)
        if any(o != q and (o.startswith(scope + "::") or scope.startswith(o + "::")) for o in used):
            used.discard(q)
            want.pop()
            continue
        h.add("".join("namespace %s { " % p for p in parts[:-1]) + inner + " }" * (len(parts) - 1))
    for code, k in want:
        h.probe(code, k)


def template_collisions(h):
    """Instantiations whose printed arguments become the same identifier."""
    r, t = h.rng, h.id("Tc")
    h.add("namespace %s_n { struct X {}; struct GENPYBIND(visible, expose_as(%s_X1)) Y { static int ident() { return -1; } }; }" % (t, t),
          "struct %s_n_X {}; " % t,
          "template <typename T> struct GENPYBIND(visible) %s { static int ident() { return 0; } };" % t)
    specs = ["int *", "int &", "int &&", "int **", "const int *", "%s_n::X" % t, "%s_n_X" % t, "int(int)", "int[]", "int *[]"]
    r.shuffle(specs)
    for k, s in enumerate(specs[:r.randrange(2, 9)]):
        h.add("template <> struct GENPYBIND(expose_as(%s_p%d)) %s<%s> { static int ident() { return %d; } };" % (t, k, t, s, k))
        h.probe("m.%s_p%d.ident()" % (t, k), k)


def valid_names_kept(h):
    r = h.rng
    n = r.choice(["_a", "A_1", "x__y", "Z9z", "_1"]) + h.id("k")
    h.add("struct GENPYBIND(visible) %s { int v = 1; };" % n,
          "namespace GENPYBIND(module) %s_mod { GENPYBIND(visible) inline int %s_f() { return 2; } }" % (n, n))
    h.probe("[m.%s().v, m.%s_mod.%s_f()]" % (n, n, n), [1, 2])


UNITS = [template_names, template_values, collisions, collisions, template_collisions, valid_names_kept]


def tasks(rng, tier):
    quick = tier == "quick"
    n, per = (4, 100000) if quick else (32, 1000000)
    out = [harness_task("enum", EXE, ["enum", "5" if quick else "6"])]
    for i in range(n):
        s = rng.randrange(1 << 60)
        out.append(harness_task("random:%d" % s, EXE, ["random", str(s), str(per)]))
    names = set(FILES)
    while len(names) < len(FILES) + (14 if quick else 200):
        f = random_file(rng)
        if len(f) > 2 and ident(stem(f)) not in ("os", "sys", "gc", "m_"):
            names.add(f)
    out += [file_case(rng, i, f) for i, f in enumerate(sorted(names))]
    out += [module_option(rng, i) for i in range(4)]
    out += batch(rng, "names", UNITS, 30 if quick else 500, 6)
    return out
