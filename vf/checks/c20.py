"""Each declaration is exposed by exactly the modules allowed by only_expose_in."""
from ..engine import Case, Exc, Pred
from ..gen import PRE, VAL
from ..world import world_case

RULE = ("random namespace trees with only_expose_in lists in headers shared by several modules (names that are prefixes "
        "and case variants of each other, derived from the file or given by option); the complete interface of every "
        "module is compared with the model, modules are imported together, and types of one are used in signatures, "
        "defaults and aliases of another; a case is distinct by its headers and module, non-trivial if imported and compared")

POOL = ["core", "core_", "cor", "Core", "core_x", "x_core", "extra", "extra2", "_ext", "a", "b", "common", "downstream", "mm"]
# module -> file names it is derived from
FILES = {"core_x": ["core_x.h", "core-x.h", "core x.hpp"], "x_core": ["x.core.h", "x_core.hh"], "extra2": ["extra2.h"],
         "core_": ["core_.h", "core-.h"], "_ext": ["_ext.h", "-ext.h"]}
MODE = {"function": "function", "cls": "class", "scoped": "enum", "var": "value"}


class Shared:
    """The shared header with, per module, the interface it describes."""

    def __init__(self, rng, modules, together):
        self.r = rng
        self.modules, self.together = modules, together
        self.api = {m: {} for m in modules}
        self.values = {m: {} for m in modules}
        self.types = []         # (qualified name, kind, {module: path})
        self.n = 0
        self.features = set()
        self.hoist = []

    def id(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def put(self, where, name, kind, value=None):
        """where: module -> path of the Python scope"""
        out = {}
        for m, p in where.items():
            q = (p + "." if p else "") + name
            assert q not in self.api[m]
            self.api[m][q] = kind
            if value is not None:
                self.values[m][q] = value
            out[m] = q
        return out

    def only(self, where):
        """(annotation parts, remaining modules)"""
        r = self.r
        if r.random() < .35:
            return [], where
        names = r.sample(POOL, r.randrange(1, 4))
        if r.random() < .7:
            names += r.sample(self.modules, r.randrange(1, len(self.modules) + 1))
        names = [x for x in names if r.random() < .8] or names[:1]
        r.shuffle(names)
        self.features.add("only-in-%d" % min(3, len(names)))
        return ["only_expose_in(%s)" % ", ".join(r.choice(["%s", '"%s"']) % x for x in names)], \
            {m: p for m, p in where.items() if m in names}

    def ns(self, where, depth, qual, visible):
        r = self.r
        n = self.id("n")
        parts, inside = self.only(where)
        if r.random() < .5:
            py = r.choice([n, "Py" + n])
            parts.append("module" if py == n else "module(%s)" % py)
            inside = self.put(inside, py, "module")
        if r.random() < .4:
            v = r.choice(["visible", "hidden", "visible(default)"])
            visible = {"visible": True, "hidden": False}.get(v, visible)
            parts.append(v)
        r.shuffle(parts)
        ann = "GENPYBIND(%s)" % ", ".join(parts) if parts else ""
        out = []
        for _ in range(r.choice([1, 1, 2])):
            out += ["namespace %s %s {" % (n, ann)] + self.items(inside, depth - 1, qual + "::" + n, visible) + ["}"]
        if r.random() < .2:
            out.append("namespace %s { using namespace %s; }" % (self.id("u"), n))
            self.features.add("using-directive")
        return "\n".join(out)

    def items(self, where, depth, qual, visible):
        r, out = self.r, []
        for _ in range(r.randrange(1, 5)):
            k = r.choice(["function", "function", "var", "cls", "scoped", "unscoped", "ns", "ns", "alias", "use", "here", "encourage", "block"])
            a, ok = ("", True) if visible and r.random() < .5 else ("GENPYBIND(visible)", True)
            if r.random() < .1:
                a, ok = "GENPYBIND(hidden)", False
            if not visible and r.random() < .1:
                a, ok = "", False
            at = where if ok else {}
            num = 100 + self.n
            if k in ("cls", "scoped", "unscoped", "here", "encourage") and self.together and len(where if k == "here" else at) > 1:
                k = "function"
            n = self.id("d")
            if k == "function":
                self.put(at, n, "function", num)
                out.append("%s inline int %s() { return %d; }" % (a, n, num))
            elif k == "var":
                self.put(at, n, "value", num)
                out.append("%s inline int %s = %d;" % (a, n, num))
            elif k == "cls":
                p = self.put(at, n, "class")
                self.put(p, "fld", "property", num)
                inner = ""
                if r.random() < .3:
                    self.put(self.put(p, "In", "class"), "w", "property", num)
                    inner = "struct In { int w = %d; };" % num
                out.append("struct %s %s { int fld = %d; %s };" % (a, n, num, inner))
                if p:
                    self.types.append((qual + "::" + n, "class", p))
            elif k in ("scoped", "unscoped"):
                p = self.put(at, n, "enum")
                e = n + "_e"
                self.put(p, e, "enumerator", num)
                if k == "unscoped":
                    self.put(at, e, "enumerator", num)
                out.append("enum %s%s %s { %s = %d };" % ("class " if k == "scoped" else "", a, n, e, num))
                if p:
                    self.types.append((qual + "::" + n, "enum", p))
            elif k == "ns" and depth > 0:
                out.append(self.ns(where, depth, qual, visible))
            elif k == "here":
                # belongs to the scope of the alias, wherever the target is
                s, t = self.id("s"), self.id("T")
                parts, _ = self.only({})
                out.append("namespace %s %s { struct %s %s { int fld = %d; }; }" % (
                    s, "GENPYBIND(%s)" % parts[0] if parts else "", r.choice(["", "GENPYBIND(visible)"]), t, num))
                p = self.put(where, n, "class")
                self.put(p, "fld", "property", num)
                out.append("using %s GENPYBIND(expose_here) = %s::%s;" % (n, s, t))
                self.features.add("expose_here")
            elif k == "block":
                # manual blocks follow the same rule
                self.put(where, n, "value", num)
                out.append('GENPYBIND_MANUAL({ parent.attr("%s") = %d; })' % (n, num))
                self.features.add("manual")
        return out

    def build(self):
        r = self.r
        root = {m: "" for m in self.modules}
        out = []
        for _ in range(r.randrange(2, 5)):
            out.append(self.ns(root, 3, "", False))
        out += self.items(root, 2, "", False)
        return out


def trim(api):
    return {k: v for k, v in api.items() if v != "module" or any(o.startswith(k + ".") and api[o] != "module" for o in api)}


def place(rng, module, header, files, **kw):
    """A case whose module name is derived from the file or given."""
    r = rng
    if r.random() < .5:
        name = r.choice(FILES.get(module, [module + ".h", module + ".hpp"]))
        return dict(module=module, main_name=name, files=files, **kw)
    name = r.choice(["main.h", "other-1.h", "core.h", "a.h"])
    if name == module + ".h":
        name = "zz.h"
    return dict(module=module, main_name=name, files=files, tool_args=["--module-name=" + module], **kw)


def shared_cases(rng, name, together):
    r = rng
    modules = r.sample(POOL, r.randrange(2, 5))
    s = Shared(r, modules, together)
    text = PRE + "\n".join(s.build()) + "\n"
    files = {"shared.h": text}
    setup = [VAL.replace("o = m\n", "o = mod\n").replace("def _res(path)", "mod = m\ndef _res(path)")]
    setup.append("def look(module, items):\n    global mod\n    mod = module\n    return [clean(api(module)), vals(items)]")
    cases, probes, extra = [], [], {m: [] for m in modules}
    if together:
        # modules use each other's types, the earlier ones are imported first
        for i, m in enumerate(modules):
            for q, kind, p in s.types:
                src = [x for x in p if x in modules[:i + 1]]
                if not src or r.random() < .4:
                    continue
                src = src[0]
                f, k = s.id("use"), r.randrange(100)
                path = "%s.%s" % (src, p[src])
                own = "x_%s" % m if r.random() < .5 else None
                wrap = ("namespace %s GENPYBIND(only_expose_in(%s)) { %%s }" % (own, m)) if own else "%s"
                if kind == "class":
                    extra[m].append(wrap % "GENPYBIND(visible) inline int %s(const %s &x, int k = %d) { return x.fld + k; }" % (f, q, k))
                    extra[m].append(wrap % "GENPYBIND(visible) inline %s mk_%s() { return {}; }" % (q, f))
                    probes.append(("%s.%s(%s()) - %s().fld" % (m, f, path, path), k))
                    probes.append(("type(%s.mk_%s()) is %s" % (m, f, path), True))
                    s.api[m]["mk_" + f] = "function"
                else:
                    e = q.split("::")[-1] + "_e"
                    extra[m].append(wrap % "GENPYBIND(visible) inline int %s(%s x = %s::%s) { return (int)x + %d; }" % (f, q, q, e, k))
                    probes.append(("[%s.%s(%s.%s) - int(%s.%s), %s.%s() - int(%s.%s)]" % (m, f, path, e, path, e, m, f, path, e), [k, k]))
                s.api[m][f] = "function"
                if r.random() < .5:
                    a = s.id("al")
                    extra[m].append(wrap % "using %s GENPYBIND(visible) = %s;" % (a, q))
                    probes.append(("%s.%s is %s" % (m, a, path), True))
                    s.api[m][a] = "alias-" + kind
                    s.features.add("alias-across")
                s.features.add("type-across")
    for m in modules:
        header = PRE + '#include "shared.h"\n' + "\n".join(extra[m]) + "\n"
        kw = place(r, m, header, files)
        want = trim(s.api[m])
        vals = {k: v for k, v in s.values[m].items()}
        items = sorted((k, want[k]) for k in vals)
        probe = ("look(%s, %r)" % (m, items), [want, {k: vals[k] for k, _ in items}])
        c = Case("%s/%s" % (name, m), header, [probe], setup=setup, features=sorted(s.features) + ["modules-%d" % len(modules)], **kw)
        cases.append(c)
    if not together:
        return cases
    last = cases[-1]
    last.probes = [p for c in cases for p in c.probes] + probes
    last.import_first = cases[:-1]
    if len({c.main_name for c in cases}) < len(cases):
        # all live in one directory
        for i, c in enumerate(cases):
            if c.tool_args:
                c.main_name = "main%d.h" % i
    last.name = name
    return [last]


def encourage_case(rng, name):
    """A type made visible by an alias of another module, in its own module."""
    r = rng
    ma, mb = r.sample(POOL, 2)
    t, k = "T%d" % r.randrange(50), r.randrange(100)
    text = PRE + '''
namespace def GENPYBIND(only_expose_in(%s)) { namespace inner { struct %s { int q = %d; }; struct Other { }; } }
namespace use GENPYBIND(only_expose_in(%s)) { using al GENPYBIND(encourage) = ::def::inner::%s;
  GENPYBIND(visible) inline int f(const al &x) { return x.q; } }
''' % (ma, t, k, mb, t)
    a = Case(name + "/a", PRE + '#include "shared.h"\n', [], module=ma, main_name="one.h", files={"shared.h": text}, tool_args=["--module-name", ma])
    return Case(name, PRE + '#include "shared.h"\n', [
        ("sorted(clean(api(%s)))" % ma, [t, t + ".q"]), ("sorted(clean(api(%s)))" % mb, ["al", "f"]),
        ("%s.al is %s.%s" % (mb, ma, t), True), ("%s.f(%s.%s())" % (mb, ma, t), k)],
        module=mb, main_name="two.h", files={"shared.h": text}, tool_args=["--module-name", mb], setup=[VAL],
        import_first=[a], features=["encourage-across"])


def unregistered_case(rng, name):
    """Without the defining module the types are unknown, but the module works."""
    r = rng
    ma, mb = r.sample(POOL, 2)
    text = PRE + '''
namespace def GENPYBIND(only_expose_in(%s)) { struct GENPYBIND(visible) T { int q = 3; }; }
namespace use GENPYBIND(only_expose_in(%s)) { using al GENPYBIND(visible) = ::def::T;
  GENPYBIND(visible) inline int f() { return 4; } GENPYBIND(visible) inline def::T g() { return {}; } }
''' % (ma, mb)
    return Case(name, text, [("[m.f(), m.al]", [4, None]), ("m.g()", Exc("TypeError")), ("hasattr(m, 'T')", False)],
                module=mb, main_name="two.h", tool_args=["--module-name", mb], features=["unregistered"],
                judge=lambda obs: [] if any("def::T" in w for w in obs.get("py", {}).get("warnings", [])) else ["no warning about the unknown type"])


def tasks(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(36 if q else 400):
        out += shared_cases(rng, "together/%d" % i, True)
    for i in range(20 if q else 250):
        out += shared_cases(rng, "separate/%d" % i, False)
    for i in range(40 if q else 600):
        mod = rng.choice(POOL)
        names = sorted({mod} | set(rng.sample(POOL, 3)))
        out.append(world_case(rng, "world/%d" % i, budget=rng.choice([10, 20, 30]), only_in=names, module=mod, rename=.2))
    out += [encourage_case(rng, "encourage/%d" % i) for i in range(3 if q else 30)]
    out += [unregistered_case(rng, "unregistered/%d" % i) for i in range(3 if q else 30)]
    return out
