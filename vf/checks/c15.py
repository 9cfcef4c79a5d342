"""The output is a function of the input."""
import hashlib
import os
import shutil

from .. import build
from ..check import FuncTask, Result
from ..gen import PRE
from ..world import World
from ..gen import H
from .c11 import Builder

RULE = ("random programs (valid ones, ones with warnings, ones with errors) with random options (several outputs, stdout, module name, graph "
        "dumps, verbose) are run repeatedly while everything that must not matter is varied: the addresses and their order (a build of the "
        "tool whose operator new returns memory in random order, address space randomization off), environment, working directory, "
        "existing outputs, parallel runs, repetition; all outputs, diagnostics and statuses must be byte-identical; distinct by header "
        "text and options, non-trivial if the tool produced output or diagnostics")
NEED_BINDINGS = False


KINDS = ["warnings", "aliases", "bases", "operators", "instantiations", "properties", "namespaces", "expose_here", "overloads", "duplicates", "cycle", "base_cycle", "inline", "conflicts", "manual"]


def stress(rng, kind):
    """Many declarations of one kind, so that every container of the tool holds many entries."""
    n = rng.randrange(6, 40)
    r = lambda a: rng.randrange(a)
    out = []
    fill = lambda: out.append("// filler\ninline int fill%d(int a, int b) { return a * %d + (b > 3 ? a : b - %d); } struct Fill%d { int a, b, c; void f(); void g(int, int); };" % (len(out), r(99), r(99), len(out)))
    if kind == "warnings":
        for i in range(n):
            out.append("struct U%d { struct GENPYBIND(visible) V%d { int x; }; enum GENPYBIND(visible) E%d { a%d }; };" % (i, i, i, i))
            if r(2):
                fill()
    elif kind == "aliases":
        for i in range(n):
            out.append("namespace n%d { struct GENPYBIND(visible) S {}; }" % i)
            fill()
        for i in range(n):
            out.append("using A%d GENPYBIND(visible) = n%d::S;" % (i, r(n)))
    elif kind == "bases":
        for i in range(n):
            out.append("struct GENPYBIND(visible%s) B%d%s { int m%d() const; };" % (rng.choice(["", ", inline_base", ", hide_base"]) if i else "", i, " : " + ", ".join("B%d" % j for j in sorted({r(i) for _ in range(1 + r(2))}, reverse=True)[:1]) if i and r(3) else "", i))
            if r(3) == 0:
                fill()
    elif kind == "inline":
        for i in range(n):
            out.append("struct B%d { int m%d() const; int x%d; };" % (i, i, i))
            fill()
        out.append("struct GENPYBIND(visible, inline_base) D : %s {};" % ", ".join("B%d" % i for i in range(n)))
    elif kind == "operators":
        for i in range(n // 3 + 2):
            out.append("struct GENPYBIND(visible) O%d { int v; friend bool operator<(const O%d &, const O%d &); };" % (i, i, i))
            for o in "+-*/%&|^":
                out.append("O%d operator%s(const O%d &, int); O%d operator%s(int, const O%d &);" % (i, o, i, i, o, i))
            fill()
    elif kind == "instantiations":
        out.append("template <typename T, int N> struct GENPYBIND(visible) T1 { T f(T x = T()) const; struct In { T y; }; enum E { e = N }; };")
        for i in range(n):
            out.append(rng.choice(["template struct T1<%s, %d>;", "using A_%d_ GENPYBIND(encourage) = T1<%%s, %%d>;" % i]) % (rng.choice(["int", "double", "char", "Fill"]), i))
        out.insert(0, "struct Fill {};")
    elif kind == "properties":
        out.append("struct GENPYBIND(visible) P {")
        idx = list(range(n))
        rng.shuffle(idx)
        for i in idx:
            out.append("  int get%d() const GENPYBIND(getter_for(p%d, q%d)); void set%d(int) GENPYBIND(setter_for(p%d)); int plain%d;" % (i, i, i, i, i, i))
        out.append("};")
    elif kind == "namespaces":
        for i in range(n):
            k = r(n // 2 + 1)
            out.append("namespace n%d GENPYBIND(module%s) { struct GENPYBIND(visible) S%d {}; namespace in { GENPYBIND(visible) int v%d(); } }" % (k, ", only_expose_in(%s)" % rng.choice(["m", "other"]) if k % 3 == 0 and False else "", i, i))
    elif kind == "expose_here":
        for i in range(n):
            out.append("namespace n%d { template <typename T> struct S { T x; }; }" % i)
        idx = list(range(n))
        rng.shuffle(idx)
        out.append("struct GENPYBIND(visible) C {")
        for i in idx:
            out.append("  using X%d GENPYBIND(expose_here) = n%d::S<int>;" % (i, i))
        out.append("};")
    elif kind == "overloads":
        for i in range(n):
            out.append("struct GENPYBIND(visible) A%d {};" % i)
        for i in range(n):
            out.append("GENPYBIND(visible) void f(A%d, A%d * = nullptr); GENPYBIND(visible) int g(const A%d &);" % (i, r(n), i))
    elif kind == "duplicates":
        out.append("namespace x { struct GENPYBIND(visible) T {}; }")
        for i in range(n):
            out.append("namespace y%d { using T%d GENPYBIND(expose_here) = x::T; }" % (i, i))
    elif kind == "cycle":
        k = rng.randrange(2, 7)
        for i in range(k):
            out.append("struct GENPYBIND(visible) S%d;" % i)
        for i in range(k):
            out.append("struct S%d { using X%d GENPYBIND(expose_here) = S%d; };" % (i, i, (i + 1) % k))
            fill()
    elif kind == "base_cycle":
        idx = list(range(n))
        for i in idx:
            out.append("struct GENPYBIND(visible) B%d {};\nnamespace n%d { struct GENPYBIND(visible) D%d : B%d { %s }; }" % (i, i, i, i, "using X GENPYBIND(expose_here) = B%d;" % i if r(3) else ""))
            if r(2):
                fill()
    elif kind == "conflicts":
        for i in range(n):
            out.append("namespace n%d GENPYBIND(module) { struct GENPYBIND(visible) S%d {}; }\nnamespace n%d { struct GENPYBIND(visible) R%d {}; }" % (i, i, i, i))
    else:
        for i in range(n):
            out.append("%sGENPYBIND_MANUAL({ (void)parent; int i = %d; (void)i; })\nnamespace n%d GENPYBIND(module) { GENPYBIND_MANUAL({ (void)parent; }) struct GENPYBIND(visible) S { GENPYBIND_MANUAL({ (void)parent; }) }; }" % (rng.choice(["", "GENPYBIND(postamble) "]), i, i))
    return kind, PRE + "\n".join(out) + "\n"


def header(rng, i):
    x = rng.random()
    if i % 2 == 0:
        kind, text = stress(rng, KINDS[i // 2 % len(KINDS)])
        return kind, text, {}
    if x < .65:
        h = H(rng)
        World(rng, budget=rng.randrange(15, 50), depth=4).fill(h)
        return "world", h.header(), {}
    b = Builder(rng)
    for _ in range(rng.randrange(5, 30)):
        b.decl(rng.random() < .4)
    c = b.case("x")
    return "annotations", c.header, c.files


def task(rng, i, runs):
    kind, text, files = header(rng, i)
    n_out = rng.choice([0, 1, 1, 1, 2, 3])
    opts = []
    if rng.random() < .3:
        opts.append("--module-name=" + rng.choice(["m", "other", "mod_1"]))
    if rng.random() < .4:
        opts += ["--dump-graph=visibility"]
    if rng.random() < .4:
        opts += ["--dump-graph=pruned"]
    cc = rng.choice([[], [], ["-v"], ["-DX=1"]])
    cc = ["-DX=1"] if cc == ["-v"] else cc
    seeds = [rng.randrange(10**6) for _ in range(runs)]

    def f(eng):
        d = eng.workdir()
        try:
            for rel, t in files.items():
                open(os.path.join(d, rel), "w").write(t)
            main = os.path.join(d, "m.h")
            open(main, "w").write(text)
            shuffled = build.shuffled_tool()
            seen = {}

            def once(label, tool, env=None, cwd=None, wrap=(), pre=None):
                outs = [os.path.join(d, "out-%d.cpp" % k) for k in range(n_out)]
                for o in outs:
                    if pre is not None:
                        open(o, "w").write(pre)
                    elif os.path.exists(o):
                        os.unlink(o)
                args = list(opts)
                for o in outs:
                    args += ["-o", o]
                if not outs:
                    args += ["-o", "-"]
                args += [main, "--", "-I" + d, "-I" + build.REPO + "/public", "-std=c++20"] + cc
                eng.count("tool_runs")
                rc, out, err = eng.run(list(wrap) + [tool] + args, cwd=cwd or d, env=env)
                if rc is None:
                    return "timeout"
                san = eng.sanitizer_report(rc, err.decode(errors="replace"))
                if san:
                    return "crash: " + san[:600]
                content = [open(o, "rb").read() if os.path.exists(o) else None for o in outs]
                if pre is not None and rc != 0:
                    content = [None if c == pre.encode() else c for c in content]
                seen.setdefault((rc, out, err, tuple(content)), []).append(label)
                return None
            problems = []
            jobs = [("plain", dict(tool=eng.tool)), ("again", dict(tool=eng.tool)),
                    ("no ASLR", dict(tool=eng.tool, wrap=["setarch", "-R"])),
                    ("environment", dict(tool=eng.tool, env={"LANG": "de_DE.UTF-8", "LC_ALL": "C", "HOME": "/", "TMPDIR": "/tmp", "USER": "nobody", "FOO": "x" * 5000, "COLUMNS": "40", "TZ": "Asia/Tokyo", "PWD": "/"}, cwd="/")),
                    ("existing output", dict(tool=eng.tool, pre="old content\n", cwd="/usr"))]
            jobs += [("memory order %d" % s, dict(tool=shuffled, env={"VF_SHUFFLE_SEED": str(s)})) for s in seeds]
            for label, kw in jobs:
                p = once(label, **kw)
                if p:
                    problems.append("%s: %s" % (label, p))
            eng.count("compared", sum(len(v) for v in seen.values()))
            if len(seen) > 1:
                items = sorted(seen.items(), key=lambda kv: -len(kv[1]))
                a, b = items[0], items[1]
                what = ["exit status", "stdout", "stderr", "generated code"]
                for j in range(4):
                    if a[0][j] != b[0][j]:
                        x, y = [repr(z) if not isinstance(z, bytes) else z.decode(errors="replace") for z in (a[0][j], b[0][j])]
                        if j == 3:
                            x, y = ["\n".join((c or b"<none>").decode(errors="replace") for c in z[0][j]) for z in (a, b)]
                        la, lb = x.splitlines(), y.splitlines()
                        diff = next((k for k in range(min(len(la), len(lb))) if la[k] != lb[k]), min(len(la), len(lb)))
                        problems.append("%s differs between runs %s and %s, first at line %d:\n  %s\n  %s" % (what[j], a[1], b[1], diff + 1, la[diff] if diff < len(la) else "<end>", lb[diff] if diff < len(lb) else "<end>"))
                        break
            first = next(iter(seen), (None, b"", b"", ()))
            return Result(problems, hashlib.sha256((text + repr((opts, n_out))).encode()).hexdigest()[:16], bool(first[1] or first[2] or any(first[3])), ["kind/" + kind, "outputs/%d" % n_out, "status/%s" % first[0]],
                          {"case": "run/%d" % i, "header": text[:2000], "runs": sum(len(v) for v in seen.values()), "distinct results": len(seen)}, evals=len(jobs))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return FuncTask("run/%d %s" % (i, kind), f, text)


def tasks(rng, tier):
    build.shuffled_tool()
    quick = tier == "quick"
    return [task(rng, i, 7 if quick else 16) for i in range(130 if quick else 4000)]
