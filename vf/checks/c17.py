"""Splitting over several output files changes nothing but the split."""
import hashlib
import os
import re
import shutil

from .. import build
from ..check import FuncTask, Result
from ..gen import H, PRE
from ..world import World, world_case
from . import c15, c16

RULE = ("random programs (0 to 100 exposed scopes) with 1 to 24 output files, in any order and partly stdout: the definitions found in the "
        "files, in order, must be those of the single output; a second family compiles every file on its own (with and without precompiled "
        "headers), links them and compares the complete interface of the module with the model. distinct by header and outputs; non-trivial if "
        "there is more than one output and more than one definition")


def definitions(text):
    """[(name, body)] of the functions defined in generated code."""
    out, lines, i = [], text.split("\n"), 0
    while i < len(lines):
        m = re.match(r"^(?:static |inline |extern )?void (\w+)\(.*\) *\{$", lines[i])
        if m:
            j = i + 1
            while j < len(lines) and lines[j] != "}":
                j += 1
            out.append((m.group(1), "\n".join(lines[i + 1:j])))
            i = j
        i += 1
    return out


def split_task(rng, i):
    x = rng.random()
    if x < .06:
        kind, text = "empty", PRE
    elif x < .5:
        kind = rng.choice(c16.VALID_KINDS)
        text = c15.stress(rng, kind)[1]
    else:
        kind = "world"
        h = H(rng)
        World(rng, budget=rng.choice([2, 5, 10, 30, 60]), depth=4).fill(h)
        text = h.header()
    counts = sorted({2, rng.randrange(3, 8), rng.randrange(8, 25)})
    shuffle, stdout = rng.random() < .3, rng.random() < .2
    seed = rng.random()

    def f(eng):
        import random
        r = random.Random(seed)
        d = eng.workdir()
        try:
            main = os.path.join(d, "m.h")
            open(main, "w").write(text)

            def go(outs):
                args = []
                for o in outs:
                    args += ["-o", o]
                rc, out, err = eng.run_tool(args + [main, "--", "-I" + d, "-I" + build.REPO + "/public", "-std=c++20"], cwd=d)
                return rc, out, err
            one = os.path.join(d, "single.cpp")
            rc, out, err = go([one])
            if rc != 0 or not os.path.exists(one):
                return Result(["valid header with one output: status %s: %s" % (rc, err[:800])], "s", True)
            single = open(one).read()
            ref = definitions(single)
            problems = []
            evals = 1
            for n in counts:
                outs = [os.path.join(d, "part-%02d.cpp" % k) for k in range(n)]
                if shuffle:
                    r.shuffle(outs)
                si = None
                if stdout:
                    si = r.randrange(n)
                    outs[si] = "-"
                for o in outs:
                    if os.path.exists(o):
                        os.unlink(o)
                rc, out, err = go(outs)
                evals += 1
                if rc != 0:
                    problems.append("%d outputs: status %s (one output: 0): %s" % (n, rc, err[:500]))
                    continue
                missing = [o for o in outs if o != "-" and not os.path.exists(o)]
                if missing:
                    problems.append("%d outputs: %d of them not written" % (n, len(missing)))
                    continue
                texts = [out if o == "-" else open(o).read() for o in outs]
                defs = [definitions(t) for t in texts]
                flat = [x for ds in defs for x in ds]
                eng.count("definitions_compared", len(flat))
                if flat != ref:
                    names, want = [x[0] for x in flat], [x[0] for x in ref]
                    if sorted(names) != sorted(want):
                        lost, extra = [x for x in want if x not in names], [x for x in names if names.count(x) > want.count(x)]
                        problems.append("%d outputs: definitions lost %s, surplus %s" % (n, lost[:5], extra[:5]))
                    elif names != want:
                        k = next(k for k in range(len(want)) if names[k] != want[k])
                        problems.append("%d outputs: definitions in another order, position %d is %s instead of %s" % (n, k, names[k], want[k]))
                    else:
                        k = next(k for k in range(len(ref)) if flat[k] != ref[k])
                        problems.append("%d outputs: definition of %s differs:\n%s\ninstead of\n%s" % (n, names[k], flat[k][1][:400], ref[k][1][:400]))
                mods = [t.count("PYBIND11_MODULE(") for t in texts]
                if sum(mods) != single.count("PYBIND11_MODULE("):
                    problems.append("%d outputs: %d module definitions" % (n, sum(mods)))
                # every file starts with the same includes
                inc = re.match(r"(?:#include .*\n)+", single).group(0)
                for o, t in zip(outs, texts):
                    if not t.startswith(inc):
                        problems.append("%d outputs: %s lacks the includes" % (n, os.path.basename(o)))
                        break
            return Result(problems, hashlib.sha256((text + repr(counts)).encode()).hexdigest()[:16], len(ref) > 1, ["split/" + kind, "contexts/%d" % (len(ref) // 10 * 10)],
                          {"case": kind, "definitions": len(ref), "outputs": counts}, evals=evals)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return FuncTask("split/%d %s" % (i, kind), f, text)


def tasks(rng, tier):
    quick = tier == "quick"
    out = []
    for i in range(4 if quick else 40):
        c = world_case(rng, "plain/%d" % i, budget=rng.randrange(8, 25))
        c.n_out = rng.randrange(2, 6)
        c.cc = ["-Werror=missing-declarations"]
        c.features = list(c.features) + ["compiled/no-pch"]
        out.append(c)
    for i in range(44 if quick else 800):
        c = world_case(rng, "linked/%d" % i, budget=rng.randrange(3, 40))
        c.n_out = rng.choice([2, 2, 3, 3, 4, 5, 8, 12])
        out.append(c)
    out += [split_task(rng, i) for i in range(220 if quick else 6000)]
    return out
