"""Headers are parsed as C++17 or later with the user's compile options."""
import hashlib
import json
import os
import re
import shlex
import shutil

from .. import build
from ..check import FuncTask, Result

RULE = ("random compile commands (after -- or from compile_commands.json, as list or string, inferred from another file, with --extra-arg): "
        "language standards and -x in all spellings, repeated and conflicting; ordered defines and undefines; include directories of all kinds with "
        "shadowed files; forced includes; options asking for other outputs, dependency files, warnings as errors. The header turns what the "
        "preprocessor sees into names of exposed functions, which are compared with a model of the command line; the file system is "
        "compared with the state before. distinct by command line; non-trivial if at least one option was given")
NEED_BINDINGS = False

STD = {}
for names, value in [(("98", "03", "11", "0x", "14", "1y", "17", "1z"), "201703L"), (("20", "2a"), "202002L"), (("23", "2b"), "202302L"), (("26", "2c"), "202400L")]:
    for n in names:
        STD["c++" + n] = (value, False)
        STD["gnu++" + n] = (value, True)
for n in ("c89", "c90", "c99", "c11", "c17", "c18", "c2x", "c23", "iso9899:1999", "iso9899:2011"):
    STD[n] = ("201703L", False)
for n in ("gnu89", "gnu90", "gnu99", "gnu11", "gnu17", "gnu2x", "gnu23"):
    STD[n] = ("201703L", True)

# Options without effect on what is analysed; those marked only in compile databases
# (clang's handling of fixed command lines after "--" drops options that replace compilation).
NO_EFFECT = [["-c"], ["-S"], ["-o", "x.o"], ["-ox.o"], ["-c", "-o", "obj/x.o"], ["--output=x.o"], ["-MD"], ["-MMD"], ["-MD", "-MF", "x.d"], ["-MMD", "-MFx.d", "-MP"], ["-MD", "-MT", "target"], ["-MD", "-MQ", "target", "-MP"],
             ["-save-temps"], ["--save-temps"], ["-save-temps=obj"], ["-emit-llvm"], ["-emit-ast"], ["-fsyntax-only"], ["-Wall", "-Werror"], ["-Weverything", "-Werror"], ["-pedantic-errors"], ["-w"], ["-O3"], ["-g"], ["-fPIC"], ["-pthread"],
             ["-fvisibility=hidden"], ["-gsplit-dwarf"], ["-flto"], ["-H"], ["-fno-rtti"], ["-fno-exceptions"], ["-march=native"], ["-Wno-unknown-warning-option", "-Wfoo-bar"], ["-fdiagnostics-color=always"], ["-Winvalid-pch"], ["-ftime-trace"], ["-fcolor-diagnostics"], ["-Wl,-rpath,/x"], ["-lfoo"], ["-L/nowhere"], ["-DVF_UNRELATED=1"], ["-fno-omit-frame-pointer"]]
NO_EFFECT_DB = [["-M"], ["-MM"], ["-E"], ["-E", "-dM"], ["-S", "-emit-llvm", "-o", "x.ll"], ["-M", "-MF", "x.d"], ["--precompile"]]
LANG = [["-xc++"], ["-x", "c++"], ["-xc"], ["-x", "c"], ["-x", "c++-header"], ["-xc-header"], ["-xobjective-c++"], ["--language=c"], ["--language", "c++"], ["-x", "cuda"]]
DEFS = ["VF_A", "VF_B", "VF_C", "VF_D"]
WHICH = ["one", "two", "three"]

HEADER = r'''#include <genpybind/genpybind.h>
#include <stddef.h>
#include <cstdint>
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#ifndef __cplusplus
#error not C++
#else
GENPYBIND(visible) void VF_CAT(vf_std_, __cplusplus)();
#endif
#ifdef __STRICT_ANSI__
GENPYBIND(visible) void vf_mode_strict();
#else
GENPYBIND(visible) void vf_mode_gnu();
#endif
#if defined(__OBJC__) || defined(__CUDA__)
GENPYBIND(visible) void vf_other_language();
#endif
#ifdef __GENPYBIND__
GENPYBIND(visible) void vf_genpybind_defined();
#else
__attribute__((annotate("◊visible"))) void vf_genpybind_undefined();
#endif
''' + "".join('''#ifdef %(n)s
#if %(n)s + 0 == 0
GENPYBIND(visible) void vf_def_%(n)s_empty();
#else
GENPYBIND(visible) void VF_CAT(vf_def_%(n)s_, %(n)s)();
#endif
#else
GENPYBIND(visible) void vf_def_%(n)s_undef();
#endif
''' % {"n": n} for n in DEFS)


def cmd(rng, d, db, ansi=True):
    """Returns (fragments, model) of a random command line; files are put below d."""
    frags = []
    kinds = []
    std = None
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
        # (inferring commands for other files moves -std to the end)
        if ansi and rng.random() < .08:
            frags.append([rng.choice(["-ansi", "--ansi"])])
            kinds.append(("std", ("201703L", False)))
        else:
            s = rng.choice(sorted(STD))
            frags.append([rng.choice(["-std=", "-std=", "--std="]) + s])
            kinds.append(("std", STD[s]))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        frags.append(list(rng.choice(LANG)))
        kinds.append(None)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        frags.append(list(rng.choice(NO_EFFECT + (NO_EFFECT_DB if db else []))))
        kinds.append(None)
    for _ in range(rng.randrange(0, 7)):
        n = rng.choice(DEFS)
        x = rng.random()
        if x < .3:
            frags.append(rng.choice([["-U" + n], ["-U", n], ["--undefine-macro=" + n]]))
            kinds.append(("def", n, "undef"))
        elif x < .4:
            frags.append(rng.choice([["-D" + n + "="], ["-D", n + "="]]))
            kinds.append(("def", n, "empty"))
        elif x < .6:
            frags.append(rng.choice([["-D" + n], ["-D", n], ["--define-macro", n]]))
            kinds.append(("def", n, "1"))
        else:
            v = str(rng.randrange(2, 90))
            frags.append(rng.choice([["-D" + n + "=" + v], ["-D", n + "=" + v], ["--define-macro=" + n + "=" + v]]))
            kinds.append(("def", n, v))
    if rng.random() < .15:
        frags.append(rng.choice([["-U__GENPYBIND__"], ["-D__GENPYBIND__=3"], ["-D__GENPYBIND__=0"]]))
        kinds.append(None)
    for k in range(rng.randrange(0, 6)):
        rel = "inc dir%d" % k if rng.random() < .1 else "inc%d" % k
        base = os.path.join(d, "cwd", rel)
        os.makedirs(base)
        has = [w for w in WHICH if rng.random() < .6]
        for w in has:
            open(os.path.join(base, "which_%s.h" % w), "w").write("#define WHICH_%s %d\n" % (w, k))
        path = rel if rng.random() < .4 else base
        opt = rng.choice(["-I", "-I", "-I", "-isystem", "-iquote", "-idirafter"])
        frags.append(rng.choice([[opt, path], [opt + path]]) if opt != "-I" or rng.random() < .8 else ["--include-directory=" + path])
        kinds.append(("inc", opt, k, has))
    for k in range(rng.choice([0, 0, 1, 1, 2])):
        f = "forced%d.h" % k
        n = rng.choice(["VF_FORCED", "VF_FORCED%d" % k])
        macros = rng.random() < .3
        body = "#undef %s\n#define %s %d\n" % (n, n, k)
        if macros:
            body += "this is not C++\n"
        open(os.path.join(d, "cwd", f), "w").write(body)
        path = f if rng.random() < .5 else os.path.join(d, "cwd", f)
        frags.append(["-imacros", path] if macros else rng.choice([["-include", path], ["-include" + path], ["--include=" + path]]))
        kinds.append(("forced", macros, n, k))
    order = list(range(len(frags)))
    rng.shuffle(order)
    frags, kinds = [frags[i] for i in order], [kinds[i] for i in order]
    expect = {"vf_genpybind_defined"}
    value, gnu = "201703L", None
    defs = {n: "undef" for n in DEFS}
    inc = {"-I": [], "-isystem": [], "-iquote": [], "-idirafter": []}
    forced = []
    for k in kinds:
        if not k:
            continue
        if k[0] == "std":
            value, gnu = k[1]
        elif k[0] == "def":
            defs[k[1]] = k[2]
        elif k[0] == "inc":
            inc[k[1]].append(k)
        else:
            forced.append(k)
    expect.add("vf_std_" + value)
    if gnu is not None:
        expect.add("vf_mode_gnu" if gnu else "vf_mode_strict")
    for n, v in defs.items():
        expect.add("vf_def_%s_%s" % (n, v))
    quote = inc["-iquote"] + inc["-I"] + inc["-isystem"] + inc["-idirafter"]
    angle = inc["-I"] + inc["-isystem"] + inc["-idirafter"]
    for w in WHICH:
        for name, path in (("q", quote), ("a", angle)):
            hit = next((k[2] for k in path if w in k[3]), None)
            expect.add("vf_%s_%s_%s" % (name, w, "none" if hit is None else hit))
    fm = {}
    for k in [k for k in forced if k[1]] + [k for k in forced if not k[1]]:
        fm[k[2]] = k[3]
    for n in ("VF_FORCED", "VF_FORCED0", "VF_FORCED1"):
        expect.add("vf_%s_%s" % (n, fm.get(n, "none")))
    return frags, expect, gnu


def main_text():
    t = HEADER
    for w in WHICH:
        for name, l, r in (("q", '"', '"'), ("a", "<", ">")):
            t += '''#undef WHICH_%(w)s
#if __has_include(%(l)swhich_%(w)s.h%(r)s)
#include %(l)swhich_%(w)s.h%(r)s
GENPYBIND(visible) void VF_CAT(vf_%(n)s_%(w)s_, WHICH_%(w)s)();
#else
GENPYBIND(visible) void vf_%(n)s_%(w)s_none();
#endif
''' % {"w": w, "n": name, "l": l, "r": r}
    for n in ("VF_FORCED", "VF_FORCED0", "VF_FORCED1"):
        t += '''#ifdef %(n)s
GENPYBIND(visible) void VF_CAT(vf_%(n)s_, %(n)s)();
#else
GENPYBIND(visible) void vf_%(n)s_none();
#endif
''' % {"n": n}
    t += '''#if __has_include(<vf_resource.h>)
GENPYBIND(visible) void vf_resource();
#endif
'''
    # text prefixes would clash with the names of the functions
    return t.replace("vf_VF_", "vf_f_VF_").replace("vf_f_VF_", "vf_forced_")


def snapshot(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d)] = "dir"
        for n in names:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest() if os.path.isfile(p) else "other"
    return out


def task(rng, i):
    mode = rng.choice(["fixed", "fixed", "db", "db", "db_string", "db_dashes", "db_infer", "extra", "relative"])
    ext = rng.choice([".h", ".h", ".hpp", ".hh", ".hxx", ".c", ".cpp", ".txt", ".cu", ".m", "", ".inc"])
    if mode == "db_infer":
        ext = ".h"
    seed = rng.random()
    resource = rng.random() < .12

    def f(eng):
        import random
        r = random.Random(seed)
        d = eng.workdir()
        try:
            os.makedirs(os.path.join(d, "cwd"))
            os.makedirs(os.path.join(d, "tmp"))
            os.makedirs(os.path.join(d, "src"))
            os.makedirs(os.path.join(d, "out"))
            main = os.path.join(d, "src", "main" + ext)
            open(main, "w").write(main_text())
            frags, expect, gnu = cmd(r, d, mode.startswith("db"), mode != "db_infer")
            expect = {e.replace("vf_VF_", "vf_forced_") for e in expect}
            flags = [x for fr in frags for x in fr]
            if resource:
                real = build.run(["clang++-18", "-print-resource-dir"]).stdout.decode().strip()
                rd = os.path.join(d, "rd")
                os.makedirs(os.path.join(rd, "include"))
                for n in os.listdir(os.path.join(real, "include")):
                    os.symlink(os.path.join(real, "include", n), os.path.join(rd, "include", n))
                open(os.path.join(rd, "include", "vf_resource.h"), "w").write("")
                flags = r.choice([["-resource-dir=" + rd] + flags, flags + ["-resource-dir", rd]])
                expect.add("vf_resource")
            inc = "-I" + build.REPO + "/public"
            out = os.path.join(d, "out", "generated.cpp")
            cwd = os.path.join(d, "cwd")
            pre, post = [], []
            if mode in ("fixed", "relative"):
                post = ["--"] + flags + [inc]
            elif mode == "extra":
                k = r.randrange(len(frags) + 1)
                a, b = [x for fr in frags[:k] for x in fr], [x for fr in frags[k:] for x in fr]
                if resource:
                    b = flags[len(flags) - 2:] + b if flags[-2] == "-resource-dir" else flags[:1] + b
                pre = ["--extra-arg-before=" + x for x in a] + ["--extra-arg=" + x for x in b]
                post = ["--", inc]
            else:
                line = ["clang++"] + flags + [inc] + (["--"] if mode == "db_dashes" else []) + [main]
                entry = {"directory": cwd, "file": main}
                if mode == "db_infer":
                    line[-1] = entry["file"] = os.path.join(d, "src", "main.cpp")
                    open(entry["file"], "w").write("")
                if mode == "db_string":
                    entry["command"] = " ".join(shlex.quote(x) for x in line)
                else:
                    entry["arguments"] = line
                json.dump([entry], open(os.path.join(d, "src", "compile_commands.json"), "w"))
                pre = ["-p", os.path.join(d, "src")]
                cwd = d
            arg = os.path.relpath(main, cwd) if mode == "relative" else main
            if mode == "db" and r.random() < .4:
                pre = []  # found next to the header
            before = snapshot(d)
            rc, sout, err = eng.run_tool(pre + ["-o", out, arg] + post, cwd=cwd, env={"TMPDIR": os.path.join(d, "tmp"), "HOME": os.path.join(d, "tmp")})
            after = snapshot(d)
            shown = " ".join(shlex.quote(x) for x in flags).replace(d, "$D")
            problems = []
            san = eng.sanitizer_report(rc, err)
            if rc is None or san:
                problems.append("crash or no answer: %s" % san)
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k != os.path.relpath(out, d))
            if changed:
                problems.append("[%s] %s: file system changed apart from the output: %s" % (mode, shown, changed[:6]))
            if rc != 0:
                problems.append("[%s] %s: status %s: %s" % (mode, shown, rc, err[:700]))
            else:
                got = set(re.findall(r'"(vf_\w+)"', open(out).read()))
                if gnu is None:
                    got = {g for g in got if not g.startswith("vf_mode")}
                eng.count("facts_compared", len(expect))
                if got != expect:
                    problems.append("[%s] %s\n  missing %s\n  unexpected %s" % (mode, shown, sorted(expect - got), sorted(got - expect)))
                stray = [x for x in err.split("\n") if re.match(r"(\S+: )?error: ", x)]
                if stray:
                    problems.append("[%s] %s: accepted, but reports %s" % (mode, shown, stray[:2]))
                if sout:
                    problems.append("[%s] %s: unexpected text on stdout: %r" % (mode, shown, sout[:200]))
            return Result(problems, hashlib.sha256((mode + ext + shown).encode()).hexdigest()[:16], bool(flags), ["mode/" + mode, "ext/" + (ext or "none")] + sorted({"option/" + x[0].split("=")[0][:9] for x in frags}),
                          {"case": mode, "flags": shown, "expected": sorted(expect)[:8]})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return FuncTask("command/%d %s" % (i, mode), f)


def tasks(rng, tier):
    return [task(rng, i) for i in range(1200 if tier == "quick" else 15000)]
