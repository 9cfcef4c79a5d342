"""Annotation argument values behave like values under every operation history."""
from ..gen import H
from ..inproc import harness_task

RULE = ("operation histories (set, copy, move, self-assignment, swap, container growth, factories, "
        "aliasing sets) over three values, enumerated (all two-operation continuations of 100 prepared "
        "states) and random (4 to 43 operations); every history is compared with a value model after each "
        "step under ASan/UBSan with an allocation balance; a task is distinct by mode and seed, all are "
        "non-trivial; the harness counts histories, operations, state checks and distinct transitions")
ASSUMPTIONS = ["the value of a moved-from object is only required to be valid"]
EXE = ("c13", ["c13.cpp"], ["src/annotations/literal_value.cpp"])


def carried(rng, i):
    """Values of every kind and length survive from the annotation to the module."""
    h = H(rng)
    want = {}
    for k in range(20):
        f = h.id("f")
        n = "".join(rng.choice("abcxyzABC_019") for _ in range(rng.choice([1, 2, 7, 15, 16, 17, 31, 64, 300])))
        n = "n%d_%s" % (k, n)
        quoted = '"%s"' % n if rng.random() < .5 else n
        pre = rng.choice(["", "visible(false), visible(true), ", "expose_as(other), ", "expose_as(default), ",
                          "visible(default), visible, ", "expose_as(zz), hidden, expose_as(default), visible, "])
        h.add("GENPYBIND(%sexpose_as(%s)) inline int %s() { return %d; }" % (pre, quoted, f, k))
        want[n] = k
    h.probe("{k: getattr(m, k)() for k in dir(m) if k[:2] != '__'}", want)
    h.feature("carried")
    return h.case("carried/%d" % i)


def tasks(rng, tier):
    n, per = (8, 6000) if tier == "quick" else (64, 60000)
    out = [harness_task("enum", EXE, ["enum"])]
    for i in range(n):
        s = rng.randrange(1 << 60)
        out.append(harness_task("random:%d" % s, EXE, ["random", str(s), str(per)]))
    out += [carried(rng, i) for i in range(8 if tier == "quick" else 100)]
    return out
