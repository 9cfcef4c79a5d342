"""Header building helpers shared by the checks."""
from .engine import Case

PRE = "#pragma once\n#include <genpybind/genpybind.h>\n"

# Evaluates one exposed declaration to the number the C++ side gave it.
VAL = '''
def _res(path):
    o = m
    for p in path.split(".") if path else []:
        o = getattr(o, p)
    return o
def val(path, kind):
    parent, _, name = path.rpartition(".")
    parent = _res(parent)
    if kind in ("function", "static"):
        return getattr(parent, name)()
    if kind == "enumerator":
        return int(getattr(parent, name))
    if kind == "method":
        return getattr(parent(), name)()
    if kind == "property":
        return getattr(parent(), name)
    return getattr(parent, name)
def vals(items):
    out = {}
    for path, kind in items:
        try:
            out[path] = val(path, kind)
        except Exception as e:
            out[path] = "%s: %s" % (type(e).__name__, str(e)[:80])
    return out
def clean(d):
    """Drop what pybind11 adds by itself, and sub-modules without content."""
    d = {k: v for k, v in d.items() if k.rsplit(".", 1)[-1] not in ("__init__", "__hash__")}
    return {k: v for k, v in d.items()
            if v != "module" or any(o.startswith(k + ".") and d[o] != "module" for o in d)}
'''


class H:
    """Collects independent pieces of a header with what to observe."""

    def __init__(self, rng, includes=()):
        self.rng = rng
        self.text = []
        self.probes = []
        self.setup = []
        self.n = 0
        self.features = []
        self.includes = list(includes)
        self.files = {}

    def id(self, prefix="x"):
        self.n += 1
        return "%s%d" % (prefix, self.n)

    def include(self, name):
        if name not in self.includes:
            self.includes.append(name)

    def add(self, *lines):
        self.text += lines

    def probe(self, code, expected, note=None):
        self.probes.append((code, expected) if note is None else (code, expected, note))

    def feature(self, name):
        self.features.append(name)

    def header(self):
        return PRE + "".join("#include %s\n" % i for i in self.includes) + "\n".join(self.text) + "\n"

    def case(self, name, **kw):
        kw.setdefault("setup", self.setup)
        kw.setdefault("features", sorted(set(self.features)))
        kw.setdefault("files", self.files)
        return Case(name, self.header(), self.probes, **kw)


def batch(rng, name, units, count, per_case, includes=(), **kw):
    """Cases that each combine `per_case` random units; every unit function
    unit(h) is used about equally often.  A unit adds text and probes."""
    out, order = [], []
    for i in range(count):
        h = H(rng, includes)
        for _ in range(per_case):
            if not order:
                order = list(units)
                rng.shuffle(order)
            u = order.pop()
            h.feature(u.__name__)
            u(h)
        out.append(h.case("%s/%d" % (name, i), **kw))
    return out
