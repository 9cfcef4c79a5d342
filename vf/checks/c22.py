"""Annotations do not change the program in normal compilation."""
import os
import re
import shutil

from .. import build
from ..check import FuncTask, Result
from ..gen import H, PRE
from ..world import World
from . import c15, c16, c19

RULE = ("random annotated headers (all positions and forms of annotations, manual blocks with arbitrary text) and the "
        "same text with the annotations blanked out are preprocessed, checked and compiled by gcc and clang with random "
        "standards and options; tokens, macros, diagnostics and object code have to agree, and no token may come from "
        "the public header; a case is distinct by text and command line and non-trivial if all were compared")
NEED_BINDINGS = False
NEED_TOOL = False


def blank(text):
    """The text with all annotations outside of comments and literals replaced
    by spaces (line breaks stay, so that positions agree)."""
    out, i, n = list(text), 0, len(text)

    def skip_literal(i):
        """End of the comment or literal that starts at i, or i."""
        if text.startswith("//", i):
            j = i
            while j < n and text[j] != "\n":
                j += 1
            return j
        if text.startswith("/*", i):
            return text.index("*/", i + 2) + 2
        m = re.compile(r'(?:u8|u|U|L)?R"([^\s()\\"]{0,16})\(').match(text, i)
        if m and (i == 0 or not (text[i - 1].isalnum() or text[i - 1] == "_")):
            return text.index(")" + m.group(1) + '"', m.end()) + len(m.group(1)) + 2
        if text[i] == '"' or text[i] == "'" and not (i and text[i - 1].isalnum()):
            q, j = text[i], i + 1
            while text[j] != q:
                j += 2 if text[j] == "\\" else 1
            return j + 1
        return i
    while i < n:
        if text.startswith("#if 0\n", i):
            i = text.index("#endif", i)
            continue
        j = skip_literal(i)
        if j > i:
            i = j
            continue
        m = re.compile(r"\bGENPYBIND(?:_MANUAL)?\s*\(").match(text, i)
        if m and (i == 0 or not (text[i - 1].isalnum() or text[i - 1] == "_")) and not text[text.rfind("\n", 0, i) + 1:i].lstrip().startswith("#"):
            depth, j = 1, m.end()
            while depth:
                k = skip_literal(j)
                if k > j:
                    j = k
                    continue
                depth += {"(": 1, ")": -1}.get(text[j], 0)
                j += 1
            for k in range(i, j):
                if out[k] != "\n":
                    out[k] = " "
            i = j
            continue
        if text[i].isalnum() or text[i] == "_":
            while i < n and (text[i].isalnum() or text[i] == "_"):
                i += 1
            continue
        i += 1
    return "".join(out)


ARGS = ["visible", "hidden", "", "expose_as(x)", 'expose_as("a)b(")', "visible, expose_as(y)", "keep_alive(this, return)",
        "anything at all", "a, (b, c), {d; e}", "'('", 'R"x()")x"', "/* ) */ visible", "visible // )\n", "\n visible\n,\n hidden\n",
        "inline_base(\"::a::*\")", "__LINE__", "GENPYBIND(visible)", "MACRO_(1), MACRO_(2)", "return_value_policy(reference)",
        "u8\"\\\"\"", "<::>", "operator()", "a ? b : c", "123abc", "...", "@"]
BODIES = ["{}", "{ parent.def(\"f\", [](int x) { return x; }); }", "{ std::map<int, int> m{{1, 2}, {3, 4}}; }", "{ for (;;) { break; } }",
          "{ using T = GENPYBIND_PARENT_TYPE; T::unknown(1, 2, ')'); }", "{ undeclared::thing<1, 2>(); }", "{ /* }) */ }", "{ return 1'000; }",
          "{\n  a();\n  b(\"}\");\n}"]


def manual_text(r):
    """Annotations in every position of the grammar, with arbitrary arguments."""
    out = ["#define MACRO_(x) x"]
    n = [0]

    def g(p=.7):
        if r.random() >= p:
            return ""
        a = r.choice(ARGS)
        return r.choice(["GENPYBIND(%s)", "GENPYBIND (%s)", "GENPYBIND(%s) GENPYBIND(visible)"]) % a

    def man():
        return r.choice(["GENPYBIND_MANUAL(%s)", "GENPYBIND(postamble) GENPYBIND_MANUAL(%s)", "GENPYBIND_MANUAL (%s)"]) % r.choice(BODIES)

    def id(p):
        n[0] += 1
        return "%s%d" % (p, n[0])
    for _ in range(r.randrange(6, 30)):
        k = r.randrange(18)
        a = id("n")
        out.append([
            lambda: "namespace %s %s { %s int %s_f(%s int a %s, int = 3 %s) %s; }" % (a, g(), g(), a, "", g(), "", g()),
            lambda: "struct %s %s { %s int x %s = %d; %s %s(); %s ~%s(); %s void m(int q %s) const %s; };" % (g(), a, g(), g(), 3, g(), a, g(), a, g(), g(), g()),
            lambda: "enum class %s %s { %s_a %s, %s_b %s = 4 };" % (g(), a, a, g(), a, g()),
            lambda: "enum %s %s : short { %s_c %s };" % (g(), a, a, g()),
            lambda: "using %s %s = int;" % (a, g()),
            lambda: "typedef int %s %s;" % (a, g()),
            lambda: "template <typename T> struct %s %s { %s T v; %s };\ntemplate struct %s %s<int>;" % (g(), a, g(), man(), g(), a),
            lambda: "template <typename T> %s T %s(T t %s) { return t; }" % (g(), a, g()),
            man,
            lambda: "struct %s { %s\n int k = 1; %s };" % (a, man(), man()),
            lambda: "%s extern int %s;" % (g(), a),
            lambda: "static inline int %s() %s;\ninline int %s() { int unused_local; int line = __LINE__; return line; }" % (a, g(), a),
            lambda: "inline int %s() { return __COUNTER__; }" % a,
            lambda: "inline const char *%s() { return \"GENPYBIND(visible) GENPYBIND_MANUAL({})\"; } // GENPYBIND(hidden)" % a,
            lambda: "#ifdef GENPYBIND\nenum { %s_macro };\n#endif\n#ifdef __GENPYBIND__\nenum { %s_tool };\n#endif" % (a, a),
            lambda: "inline int %s(int GENPYBIND_like, int x) { if (x = GENPYBIND_like) return 1; return 0; }" % a,
            lambda: "#if 0\nGENPYBIND(%s\n#endif\nclass %s { %s int priv_; public: %s %s(int) %s; };" % (a, a, g(), g(), a, ""),
            lambda: "union %s %s { %s int i; float f %s; };" % (g(), a, g(), g()),
        ][k]())
    return "\n".join(out) + "\n"


def source(r, i):
    k = i % 4
    if k < 2:
        return "positions", manual_text(r)
    if k == 2:
        h = H(r)
        World(r, budget=r.randrange(10, 50), depth=4).fill(h)
        return "world", "\n".join(h.text) + "\n"
    if r.random() < .5:
        kind, text = c15.stress(r, r.choice(c15.KINDS))
        return "stress", text.replace(PRE, "")
    t = c19.Tree(r, True)
    return "blocks", "\n".join(t.build()) + "\n"


STDS = {"g++": ["c++11", "c++14", "gnu++14", "c++17", "gnu++17", "c++20", "gnu++20", "c++23"],
        "clang++-18": ["c++11", "c++14", "c++17", "gnu++17", "c++20", "gnu++20", "c++23", "c++2c"]}
OPTS = ["-O2", "-O0", "-DNDEBUG", "-D_DEBUG", "-fno-exceptions", "-fno-rtti", "-fsanitize=address", "-fsanitize=thread", "-pthread", "-fPIC", "-g", "-DDOXYGEN",
        "-D__INTELLISENSE__", "-D__CLANG_TIDY__", "-D__cppcheck__", "-DPYBIND11_VERSION_MAJOR=2", "-DPy_PYTHON_H", "-fms-extensions", "-fopenmp", "-Wno-comment",
        "-fno-builtin", "-DGENPYBIND_DISABLE", "-DGENPYBIND_ENABLE", "-D__DOXYGEN__", "-D__CODECHECKER__", "-funsigned-char", "-fshort-enums", "-D_GLIBCXX_DEBUG"]
WARN = ["-Wall", "-Wextra", "-Wpedantic", "-Wshadow", "-Wunused", "-Wextra-semi", "-Wunused-macros", "-Wundef", "-Wold-style-cast"]


def tokens(text):
    """(tokens, files they come from that belong to the public headers)"""
    out, own, cur, system = [], set(), "", False
    for line in text.splitlines():
        m = re.match(r'#\s*(?:line\s+)?\d+ "([^"]*)"((?: \d)*)', line)
        if m:
            cur, system = m.group(1), "3" in m.group(2).split()
            continue
        if system:
            continue
        if line.strip() and not line.startswith("#pragma"):
            if "/genpybind/" in cur and os.path.realpath(cur).startswith(build.REPO):
                own.add(line.strip()[:80])
            out.append(line)
    return out, own


def task(rng, i):
    r = rng
    kind, text = source(r, i)
    cc = r.choice(sorted(STDS))
    std = r.choice(STDS[cc])
    if "11" in std:
        text = text.replace("1'000", "1000")
    opts = r.sample(OPTS, r.randrange(0, 5))
    if "-fsanitize=thread" in opts and "-fsanitize=address" in opts:
        opts.remove("-fsanitize=thread")
    warn = r.sample(WARN, r.randrange(1, 6))
    inc = r.choice(["#include <genpybind/genpybind.h>", '#include "genpybind/genpybind.h"',
                    "#include <genpybind/genpybind.h>\n#include <genpybind/genpybind.h>"])
    base = "#include <type_traits>" + "\n" * inc.count("\n") + "\n#include <map>\n#include <string>\n#include <vector>\n#include \"vflog.h\"\n"
    if r.random() < .5:
        base = "#include <type_traits>\n#include <map>\n#include <string>\n#include <vector>\n#include \"vflog.h\"\n" + "\n" * (inc.count("\n") + 1)
        full = base.rstrip("\n") + "\n" + inc + "\n"
    else:
        full = inc + "\n#include <map>\n#include <string>\n#include <vector>\n#include \"vflog.h\"\n"
    plain = base + blank(text)
    if "#ifdef GENPYBIND\n" in text:
        plain = plain.replace("#ifdef GENPYBIND\n", "#if 1          \n")   # the macro as such exists
    cmd = [cc, "-std=" + std, "-I" + build.REPO + "/public", "-I."] + opts

    def f(eng):
        d = eng.workdir()
        problems = []
        try:
            os.makedirs(d + "/a")
            os.makedirs(d + "/b")
            open(d + "/vflog.h", "w").write(c19.VFLOG)
            for sub, content in (("a", full + text), ("b", plain)):
                open("%s/%s/x.cpp" % (d, sub), "w").write(content)
                open("%s/%s/vflog.h" % (d, sub), "w").write(c19.VFLOG)

            def both(extra):
                res = [eng.run(cmd + extra, cwd=d + "/" + s) for s in "ab"]
                return [(rc, o.decode(errors="replace"), e.decode(errors="replace")) for rc, o, e in res]
            (rca, oa, ea), (rcb, ob, eb) = both(["-E", "x.cpp"])
            if rca is None or rcb is None:
                problems.append("the preprocessor did not finish")
            ta, own = tokens(oa)
            tb, _ = tokens(ob)
            if own:
                problems.append("the public header contributes declarations: %s" % sorted(own)[:4])
            na, nb = [" ".join("\n".join(t).split()) for t in (ta, tb)]
            if na != nb and not own:
                sa, sb = na.split(), nb.split()
                k = next((k for k, (x, y) in enumerate(zip(sa, sb)) if x != y), min(len(sa), len(sb)))
                problems.append("the annotations leave tokens behind: with %r, without %r" % (" ".join(sa[max(0, k - 5):k + 12]), " ".join(sb[max(0, k - 5):k + 12])))
            if (rca, ea) != (rcb, eb):
                problems.append("diagnostics of the preprocessor differ: %s\n%s" % (ea[:500], eb[:500]))
            (_, ma, _), (_, mb, _) = both(["-E", "-dM", "x.cpp"])
            diff = {m for m in set(ma.splitlines()) ^ set(mb.splitlines()) if not re.match(r"#define GENPYBIND(_\w+)?\b|#define _", m)}
            if diff:
                problems.append("other macros differ: %s" % sorted(diff)[:4])
            eng.count("preprocessed", 4)
            # the included files are the same, and neither pybind11 nor Python
            (_, ha, _), (_, hb, _) = both(["-M", "x.cpp"])
            fa, fb = [set(x.replace("\\\n", " ").split()) for x in (ha, hb)]
            bad = [x for x in fa if "pybind11" in x or "python" in x.lower()]
            if bad:
                problems.append("the public header pulls in %s" % bad[:3])
            # warnings and errors
            show = ["-fno-diagnostics-show-caret"] if cc == "g++" else ["-fno-caret-diagnostics"]
            (rca, _, ea), (rcb, _, eb) = both(warn + show + ["-fsyntax-only", "x.cpp"])
            strip = lambda s: [x for x in s.splitlines() if "-Wunused-macros" not in x]
            if (rca, strip(ea)) != (rcb, strip(eb)):
                problems.append("the compiler says something else: %s\n-- instead of --\n%s" % (ea[:700], eb[:700]))
            if rcb == 0:
                (rca, _, _), (rcb, _, _) = both(["-g0", "-w", "-c", "x.cpp", "-o", "x.o"])
                oa, ob = (open("%s/%s/x.o" % (d, s), "rb").read() if os.path.exists("%s/%s/x.o" % (d, s)) else b"" for s in "ab")
                if rca != rcb or oa != ob:
                    problems.append("the object code differs")
                eng.count("compiled", 2)
            feats = [kind, cc, std, "compiles" if rcb == 0 else "rejected"] + opts
            eng.count("tokens", len(nb.split()))
            return Result(problems, key=hash_of(text, cmd, warn), features=feats, sample={"command": " ".join(cmd + warn), "text": text[:1200]})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return FuncTask("%s/%d" % (kind, i), f, "%s\n%s" % (" ".join(cmd + warn), full + text))


def hash_of(*x):
    import hashlib
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def tasks(rng, tier):
    return [task(rng, i) for i in range(220 if tier == "quick" else 4000)]
