"""Annotation text is parsed according to its grammar, for every byte string."""
import re

from .. import build
from ..check import FuncTask, Result
from ..engine import Inconclusive
from ..gen import H
from ..inproc import ANN, harness_task

RULE = ("byte strings (all sequences of up to 5 or 6 tokens out of 12, random token mixes, mutated and random bytes; in "
        "the thorough tier also coverage guided) parsed in process under ASan/UBSan and compared with an independently "
        "written tokenizer and parser (annotations, values, error kind, offending token, print/parse round trip), plus "
        "annotation texts given to the tool, whose effect on the module or whose diagnostic is compared with a third, "
        "Python, parser; distinct by token shape / text, non-trivial if parsed and compared")
ASSUMPTIONS = ["the grammar is the documented one; escapes in strings are kept verbatim"]
EXE = ("c12", ["c12.cpp"], ANN)
KINDS = """arithmetic dynamic_attr encourage export_values expose_as expose_here getter_for hidden hide_base holder_type
implicit_conversion inline_base keep_alive manual module noconvert only_expose_in postamble readonly required
return_value_policy setter_for visible""".split()


def tokens(s):
    i, out = 0, []
    while True:
        while i < len(s) and s[i] in " \t":
            i += 1
        if i == len(s):
            return out + [("eof", "")]
        c = s[i]
        if c in "(),":
            out.append((c, c))
            i += 1
        elif c in "0123456789":
            t = re.match(r"[0-9]+", s[i:]).group()
            out.append(("num" if int(t) < 2**32 else "bad", t))
            i += len(t)
        elif c == '"':
            t = re.match(r'"(?:[^"\\]|\\.)*"', s[i:], re.S)
            if t:
                out.append(("str", t.group()))
                i += len(t.group())
            else:
                out.append(("bad", s[i:]))
                i = len(s)
        elif re.match(r"[A-Za-z_]", c):
            t = re.match(r"[A-Za-z_0-9]+", s[i:]).group()
            out.append(("id", t))
            i += len(t)
        else:
            out.append(("bad", c))
            i += 1


def parse(s):
    """([(kind, [values])], error token or None)"""
    ts, i, out = tokens(s), 0, []
    while ts[i][0] == "id":
        kind = ts[i][1]
        if kind not in KINDS:
            return out, kind
        i += 1
        args = []
        if ts[i][0] == "(":
            i += 1
            while ts[i][0] in ("id", "num", "str"):
                t, x = ts[i]
                args.append({"num": lambda: int(x), "str": lambda: x[1:-1],
                             "id": lambda: {"true": True, "false": False, "default": None}.get(x, x)}[t]())
                i += 1
                if ts[i][0] != ",":
                    break
                i += 1
            if ts[i][0] != ")":
                return out, ts[i][1]
            i += 1
        out.append((kind, args))
        if ts[i][0] != ",":
            break
        i += 1
    if ts[i][0] != "eof":
        return out, ts[i][1]
    return out, None


def effect(parsed, name):
    """Exposed name or None for a free function, or "error"."""
    visible, spelling = True, ""
    for kind, args in parsed:
        if kind == "hidden" and not args:
            visible = False
        elif kind == "visible" and args in ([], [True], [False], [None]):
            visible = args[0] if args else True
        elif kind == "expose_as" and args == [None]:
            spelling = ""
        elif kind == "expose_as" and len(args) == 1 and isinstance(args[0], str) and \
                not isinstance(args[0], bool) and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", args[0]):
            spelling = args[0]
        else:
            return "error"
    return (spelling or name) if visible else None


def text(r, ok):
    ws = lambda: r.choice(["", "", "", " ", "\t", "  "])
    items = []
    for _ in range(r.randrange(1, 5)):
        items.append(r.choice([
            "visible", "hidden", "visible()", "hidden()", "visible(true)", "visible(false)", "visible(default)",
            "visible(%strue%s)" % (ws(), ws()), "expose_as(%s)" % r.choice(["aa", "Bb_", "_c1", "true_", "defaults", "False"]),
            "expose_as(%s\"%s\")" % (ws(), r.choice(["qq", "true", "default", "false", "x_9"])), "expose_as(default)",
            "visible(true,)", "expose_as(zz,)", "hidden(,)"[:7] + ")"]))
    s = ws() + (ws() + "," + ws()).join(items) + ws() + r.choice(["", "", ","])
    if not ok:
        for _ in range(r.randrange(1, 3)):
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(["(", ")", ",,", "é", "99999999999", "4294967296", "\"", ".", "+", "0", " visible", "-1",
                                  "Visible", "visible2", "=", "'x'", "\\"]) + s[i:]
    return s


def lit(s):
    return '"◊" "' + s.replace("\\", "\\\\").replace('"', '\\"') .replace("\t", "\\t") + '"'


def effects(r, i):
    h = H(r)
    want, seen = [], set()
    while len(want) < 24:
        f = h.id("f")
        s = text(r, r.random() < .6)
        p, err = parse(s)
        e = effect(p, f)
        if err is not None or e == "error" or not s.strip(" \t") or e in seen:
            continue
        seen.add(e)
        h.add("inline int %s() __attribute__((annotate(%s)));" % (f, lit(s)), "inline int %s() { return %d; }" % (f, len(want)))
        want.append((e, f))
    names = {e: k for k, (e, f) in enumerate(want) if e}
    h.probe("{k: getattr(m, k)() for k in dir(m) if k[:2] != '__'}", names)
    h.feature("effects")
    return h.case("effects/%d" % i)


def errors(r, i):
    """One declaration with a malformed text between well-formed ones."""
    while True:
        s = text(r, False)
        p, err = parse(s)
        if err is not None and "\n" not in s:
            break
    h = H(r)
    h.add("GENPYBIND(visible) inline int before() { return 1; }",
          "inline int f() __attribute__((annotate(%s)));" % lit(s),
          "GENPYBIND(visible) inline int after() { return 1; }")
    line = h.header()[:h.header().index("inline int f()")].count("\n") + 1

    def judge(obs):
        mine = [l for l in obs["err"].splitlines() if re.search(r"\.h:%d:\d+: error: " % line, l)]
        squash = lambda t: "".join(t.split())
        if not err.isascii() and mine:
            return []  # the diagnostic shows single bytes
        if not any(squash(l.split("error: ", 1)[1]).endswith(squash(err)) for l in mine):
            return ["no error naming the offending token %r of %r: %s" % (err, s, obs["err"][:800])]
        others = [l for l in obs["err"].splitlines() if " error: " in l and l not in mine]
        return ["unrelated error: " + others[0]] if others else []
    return h.case("errors/%d" % i, expect="error", judge=judge, features=["errors"])


def fuzz(seed):
    """Coverage guided inputs (libFuzzer) for the same oracle."""
    def f(eng):
        try:
            exe, _ = build.harness(*EXE, extra_flags=("-DFUZZ", "-fsanitize=fuzzer"))
        except build.BuildError as e:
            raise Inconclusive("harness c12 does not build: %s" % str(e)[-600:])
        d = eng.workdir()
        runs = 400000
        rc, out, err = eng.run([exe, "-runs=%d" % runs, "-seed=%d" % (seed % 10**9 + 1), "-max_len=200",
                                "-artifact_prefix=" + d + "/", d], timeout=900)
        if rc is None:
            raise Inconclusive("fuzzing did not finish")
        err = err.decode(errors="replace")
        eng.count("fuzz.inputs", runs)
        problems = []
        if rc != 0:
            problems = ["fuzzing: " + out.decode(errors="replace")[:1500] + err[-1500:]]
        return Result(problems, key="fuzz%d" % seed, features=["fuzz"], evals=runs,
                      sample={"fuzz": [l for l in err.splitlines() if "cov:" in l][-1:]})
    return FuncTask("fuzz:%d" % seed, f)


def tasks(rng, tier):
    n, per = (8, 40000) if tier == "quick" else (64, 400000)
    out = [harness_task("enum", EXE, ["enum", "5" if tier == "quick" else "6", "12"])]
    for i in range(n):
        s = rng.randrange(1 << 60)
        out.append(harness_task("random:%d" % s, EXE, ["random", str(s), str(per)]))
    if tier == "thorough":
        out += [fuzz(rng.randrange(1 << 60)) for _ in range(8)]
    out += [effects(rng, i) for i in range(12 if tier == "quick" else 200)]
    out += [errors(rng, i) for i in range(80 if tier == "quick" else 2000)]
    return out
