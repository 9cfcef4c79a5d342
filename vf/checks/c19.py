"""Manual bindings and include pragmas take effect once, in order."""
import re

from ..engine import Case
from ..gen import H, PRE

RULE = ("random trees of namespaces, classes, templates, inlined bases and relocated classes with manual blocks that "
        "append (block, address of parent) to a log; the recorded log is checked for exactly-once execution, the "
        "identity of parent, source order within a scope, and the position of top-level and postamble blocks; random "
        "include pragmas, valid and not, compared with the include directives of all outputs, the entities seen "
        "during analysis and the lines with errors; a case is distinct by header text and non-trivial if its log or "
        "directives were compared")

VFLOG = r'''#pragma once
#include <cstddef>
#include <string>
#include <vector>
namespace vflog {
struct Entry { std::string id; unsigned long ptr; };
inline std::vector<Entry> &entries() { static std::vector<Entry> e; return e; }
template <typename T> void note(const char *id, T &parent) { entries().push_back({id, (unsigned long)parent.ptr()}); }
inline void note(const char *id) { entries().push_back({id, 0}); }
inline void value(const char *id, long v) { entries().push_back({std::string(id) + "=" + std::to_string(v), 0}); }
// How many of the (dotted, space separated) names can be reached from parent.
template <typename T> void count(const char *id, T &parent, const std::string &names) {
  long n = 0;
  for (std::size_t i = 0; i < names.size();) {
    std::size_t j = names.find(' ', i);
    if (j == std::string::npos) j = names.size();
    std::string name = names.substr(i, j - i);
    i = j + 1;
    auto o = parent.ptr();
    bool ok = true;
    for (std::size_t a = 0; ok && a < name.size();) {
      std::size_t b = name.find('.', a);
      if (b == std::string::npos) b = name.size();
      const std::string part = name.substr(a, b - a);
      a = b + 1;
      if (!PyObject_HasAttrString(o, part.c_str())) ok = false;
      else o = PyObject_GetAttrString(o, part.c_str());  // leaks a reference, on purpose
    }
    n += ok;
  }
  value(id, n);
}
}
'''
LOG = '''GENPYBIND(visible) inline int log_size() { return (int)vflog::entries().size(); }
GENPYBIND(visible) inline std::string log_id(int i) { return vflog::entries()[i].id; }
GENPYBIND(visible) inline unsigned long log_ptr(int i) { return vflog::entries()[i].ptr; }
'''
SETUP = '''
def _o(path):
    o = m
    for p in path.split(".")[1:]:
        o = getattr(o, p)
    return o
def log():
    return [(m.log_id(i), m.log_ptr(i)) for i in range(m.log_size())]
def who(paths):
    """[(block, path of the parent it was given)]"""
    ids = {id(_o(p)): p for p in paths}
    return [[i, ids.get(p, "?")] for i, p in log() if p]
'''

# (body, value it has to report): every kind of statement that can be printed
BODIES = [
    ("long s = 0; for (int i = 0; i < 5; ++i) { if (i % 2) continue; s += i; } @(s);", 6),
    ("long s = 0; int k = 3; while (k-- > 0) s += k; do { s++; } while (s < 5); @(s);", 5),
    ("long s = 0; switch (3) { case 1: s = 1; break; case 3: s = 7; break; default: s = 9; } @(s);", 7),
    ("long s = 0; switch (3) { case 3: s = 7; [[fallthrough]]; case 4: s += 2; break; default: s = 9; } @(s);", 9),
    ("long s = 0; try { throw 5; } catch (int x) { s = x; } catch (...) { s = 1; } @(s);", 5),
    ("long s = 2; auto l = [&s](int x) { return s * x; }; auto k = [=](auto y) mutable { return y + s; }; @(l(4) + k(1));", 11),
    ("std::map<int, int> mm{{1, 2}, {3, 4}}; long s = 0; for (const auto &kv : mm) s += kv.first; @(s);", 4),
    (r'std::string s = "q\"\\\n\x41{"; @((long)s.size() * 1000 + s[4]);', 6065),
    ('std::string s = R"(r ") }\n2)"; @((long)s.size());', 8),
    ('std::string s = "con" "cat;"; @((long)s.size());', 7),
    ("if constexpr (sizeof(int) == 4) @(1); else @(2);", 1),
    ("struct L { int a = 3; int f() const { return a; } }; L l; @(l.f());", 3),
    ("long *p = new long(4); long v = *p; delete p; @(v + static_cast<long>('a') + (true ? 1 : 0) + int(2.5));", 104),
    ("using V = std::vector<int>; V v = {1, 2, 3}; namespace z = vflog; @(v[1] + (long)v.size());", 5),
    ("int a[3] = {1, 2, 3}; long s = 0; for (int x : a) s = s * 10 + x; @(s);", 123),
    ("long s = 0; for (int i = 0;; ++i) { if (i > 3) break; s += i; } @(s);", 6),
    ("static int calls = 40; ++calls; @(calls);", 41),
    ("@([] { return 8; }());", 8),
    ("if (long q = 4; q > 3) { @(q); } else { @(0); }", 4),
    ("@(0x10 + 010 + 0b11 + 1'000);", 1027),
    ("int x = 5; int &y = x; y -= 2; int *z = &x; *z <<= 2; @(x ^ 1);", 13),
    ("@(sizeof(long) + alignof(char) + (long)noexcept(1 + 1));", 10),
    ("enum { ea = 2, eb }; @(eb * ea);", 6),
    ("std::string s(3, 'x'); s += 'y'; @(s == \"xxxy\" ? 1 : 0);", 1),
    ("{ { ; } } @(1); // }) not the end", 1),
    ("bool b = true and not false; @(b ? 2 : 3); /* }) */", 2),
]


class Tree:
    def __init__(self, rng, relocate):
        self.r = rng
        self.relocate = relocate
        self.n = 0
        self.blocks = {}        # context -> [id]
        self.parent = {}        # context -> python path
        self.contexts = []      # in order of their first declaration
        self.values = {}        # id -> expected value
        self.calls = []         # (python expression, expected)
        self.post = []
        self.before = []        # blocks at top level that count members
        self.after = []
        self.members = []       # dotted names of members outside the top level
        self.unknown_order = False
        self.features = set()
        self.tail = []

    def id(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def context(self, key, path):
        if key not in self.blocks:
            self.blocks[key] = []
            self.parent[key] = path
            self.contexts.append(key)

    def block(self, key, cls=False, ids=None):
        """A manual block of context key (None: must not be executed)."""
        r = self.r
        i = self.id("b")
        stm = ['vflog::note("%s", parent);' % i]
        if key is not None:
            self.blocks[key].append(i)
        if r.random() < .3:
            body, v = r.choice(BODIES)
            j = self.id("v")
            stm.append("{ %s }" % re.sub(r"@\(", lambda _: 'vflog::value("%s", ' % j, body))
            if "//" in body:
                stm[-1] = stm[-1][:-1] + "\n}"
            if key is not None:
                self.values[j] = [v]
            self.features.add("body")
        if r.random() < .3:
            f, k = self.id("mf"), r.randrange(100)
            if cls:
                stm.append('using P_ = GENPYBIND_PARENT_TYPE; parent.def("%s", [](P_ &, int x) { return x + %d; });' % (f, k))
                self.features.add("parent-type")
            else:
                stm.append('parent.def("%s", [](int x) { return x + %d; });' % (f, k))
            if key is not None and self.parent[key] is not None:
                self.calls.append(("%s%s.%s(1)" % (self.parent[key], "()" if cls else "", f), k + 1))
        r.shuffle(stm[1:])
        return "GENPYBIND_MANUAL({ %s })" % " ".join(stm)

    def fn(self, path, static=False):
        f = self.id("f")
        if path is not None and path != "m":
            self.members.append((path + "." + f)[2:])
        return "GENPYBIND(visible) %s int %s() { return 1; }" % ("static" if static else "inline", f)

    def cls(self, path, depth, visible=True):
        r = self.r
        c = self.id("C")
        me = None
        if path is not None and visible:
            me = path + "." + c
            self.context(c, me)
        kw, acc = r.choice([("struct", ""), ("class", "public:"), ("union", "")])
        if kw == "union" and depth < 1:
            kw = "struct"
        out = ["%s GENPYBIND(%s) %s { %s" % (kw, "visible" if visible else "hidden", c, acc)]
        for _ in range(r.randrange(1, 4)):
            w = r.random()
            if w < .55:
                out.append(self.block(c if me else None, True))
            elif w < .75:
                out.append(self.fn(me, True))
            elif depth > 0 and me:
                out.append(self.cls(me, depth - 1, r.random() < .7))
            if r.random() < .15:
                a = r.choice(["private", "protected"])
                out.append("%s:\n%s\npublic:" % (a, self.block(None, True)))
                self.features.add("inaccessible-block")
        return "\n".join(out + ["};"])

    def template(self, path):
        r = self.r
        c = self.id("T")
        out = ["template <typename T> struct GENPYBIND(visible) %s {" % c]
        ids = []
        for _ in range(r.randrange(1, 3)):
            i, j = self.id("b"), self.id("v")
            ids.append((i, j))
            out.append('GENPYBIND_MANUAL({ vflog::note("%s", parent); vflog::value("%s", sizeof(T)); })' % (i, j))
        out.append("};")
        for t, n, size in r.sample([("int", "int", 4), ("char", "char", 1), ("double", "double", 8), ("short", "short", 2)], r.randrange(1, 4)):
            out.append("template struct %s<%s>;" % (c, t))
            key = "%s<%s>" % (c, t)
            self.context(key, "%s.%s_%s_" % (path, c, n))
            for i, j in ids:
                self.blocks[key].append(i)
                self.values.setdefault(j, []).append(size)
        self.features.add("template")
        return "\n".join(out)

    def inherit(self, path):
        """Blocks of inlined bases are blocks of the derived class."""
        b, d, e = self.id("Base"), self.id("Der"), self.id("Dir")
        self.unknown_order = True
        out = ["struct GENPYBIND(hidden) %s {" % b]
        i = self.id("b")
        out += ['GENPYBIND_MANUAL({ vflog::note("%s", parent); })' % i, "};"]
        for n in (d, e)[:self.r.randrange(1, 3)]:
            self.context(n, path + "." + n)
            self.blocks[n].append(i)
            out += ["struct GENPYBIND(visible, inline_base) %s : %s {" % (n, b), self.block(n, True), "};"]
        self.features.add("inline_base")
        return "\n".join(out)

    def moved(self, path):
        c, a, s = self.id("Mv"), self.id("al"), self.id("src")
        self.unknown_order = True
        self.context(c, path + "." + a)
        hidden = self.r.random() < .5
        out = ["namespace %s { struct %s %s {" % (s, self.r.choice(["", "GENPYBIND(visible)"]), c), self.block(c, True)]
        if self.r.random() < .5:
            out.append(self.cls(path + "." + a, 0))
        out += ["}; }", "using %s GENPYBIND(expose_here) = %s::%s;" % (a, s, c)]
        self.features.add("expose_here")
        return "\n".join(out)

    def ns(self, path, depth, qual):
        r = self.r
        n = self.id("n")
        kind = r.choice(["plain", "plain", "module", "module", "named", "hidden", "visible", "inline", "only", "other"])
        ann, me = {"plain": ("", path), "hidden": ("GENPYBIND(hidden)", path), "visible": ("GENPYBIND(visible)", path),
                   "inline": ("", path), "module": ("GENPYBIND(module)", path and path + "." + n),
                   "named": ('GENPYBIND(module("Py%s"))' % n, path and path + ".Py" + n),
                   "only": ("GENPYBIND(only_expose_in(m))", path), "other": ("GENPYBIND(only_expose_in(elsewhere))", None)}[kind]
        self.features.add("namespace-" + kind)
        kw = "inline namespace" if kind == "inline" else "namespace"
        q = qual + "::" + n
        if me is not None:
            self.context(q, me)
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            out += ["%s %s %s {" % (kw, n, ann)] + self.items(q if me else None, me, depth - 1, q) + ["}"]
            if r.random() < .3 and qual == "":
                out.append(self.block(""))
        return "\n".join(out)

    def items(self, key, path, depth, qual):
        r, out = self.r, []
        for _ in range(r.randrange(1, 5)):
            w = r.random()
            if w < .45:
                b = self.block(key)
                if r.random() < .15 and qual == "":
                    b = 'extern "C++" { %s }' % b
                    self.features.add("linkage-block")
                out.append(b)
            elif w < .6:
                out.append(self.fn(path))
            elif w < .75:
                out.append(self.cls(path, depth, r.random() < .8))
            elif w < .9 and depth > 0:
                out.append(self.ns(path, depth, qual))
            elif path is not None and w < .94:
                out.append(self.template(path))
            elif path is not None and self.relocate:
                out.append(r.choice([self.inherit, self.moved])(path))
            if qual == "" and r.random() < .15:
                i = self.id("post")
                self.post.append(i)
                out.append(r.choice(["GENPYBIND(postamble) %s", "GENPYBIND(postamble)\n%s"]) % (
                    'GENPYBIND_MANUAL({ vflog::note("%s", parent); })' % i))
                self.features.add("postamble")
        return out

    def build(self):
        r = self.r
        self.context("", "m")
        out = []
        for _ in range(r.randrange(2, 6)):
            out += self.items("", "m", 3, "")
        # what can be seen of the others at the beginning and the end
        names = " ".join(self.members)
        pre = 'GENPYBIND_MANUAL({ vflog::count("pre", parent, "%s"); })' % names
        post = 'GENPYBIND(postamble) GENPYBIND_MANUAL({ vflog::count("post", parent, "%s"); })' % names
        for t in (pre, post):
            out.insert(r.randrange(len(out) + 1), t)
        self.values["pre"] = [0]
        self.values["post"] = [len(self.members)]
        return out


def problems(entries, tree):
    """Violations of the order specification in the observed log."""
    out = []
    want = {}
    for key, ids in tree.blocks.items():
        for i in ids:
            want.setdefault(i, []).append(tree.parent[key])
    for i in tree.post:
        want[i] = ["m"]
    seen = {}
    for i, p in entries:
        seen.setdefault(i, []).append(p)
    for i in sorted(set(want) | set(seen)):
        if sorted(want.get(i, [])) != sorted(seen.get(i, [])):
            out.append("block %s should run once for each of %s, ran for %s" % (i, want.get(i, []), seen.get(i, [])))
    if out:
        return out
    pos = {(i, p): k for k, (i, p) in enumerate(entries)}
    for key, ids in tree.blocks.items():
        at = [pos[i, tree.parent[key]] for i in ids]
        if at != sorted(at):
            out.append("blocks of %s ran in the order %s, they are declared as %s" % (
                key or "the top level", [i for _, i in sorted(zip(at, ids))], ids))
    at = [pos[i, "m"] for i in tree.post]
    if at != sorted(at) or at and at[0] != len(entries) - len(at):
        out.append("postamble blocks %s are not last, in order: %s" % (tree.post, entries))
    top = [pos[i, "m"] for i in tree.blocks[""]]
    if top and top[-1] != len(top) - 1:
        out.append("top-level blocks %s are not first: %s" % (tree.blocks[""], entries))
    if not tree.unknown_order:
        # scopes take their turn in the order they are declared in
        for a, b in zip(*(lambda x: (x, x[1:]))([k for k in tree.contexts if tree.blocks[k]])):
            if pos[tree.blocks[a][-1], tree.parent[a]] > pos[tree.blocks[b][0], tree.parent[b]]:
                out.append("the blocks of %s do not precede those of %s, which is declared later" % (a or "the top level", b))
    return out


class Log:
    """Expected value of the probe that returns the whole log."""

    def __init__(self, tree):
        self.tree = tree

    def __repr__(self):
        return "a log with each block once, in order"


def tree_case(rng, name, relocate):
    t = Tree(rng, relocate)
    text = t.build()
    h = H(rng, ["<map>", "<string>", "<vector>", '"vflog.h"'])
    h.files["vflog.h"] = VFLOG
    h.setup.append(SETUP)
    h.add(LOG, *text)
    paths = sorted({p for k, p in t.parent.items() if t.blocks[k]} | {"m"})
    h.probe("[type(x).__name__ for x in map(_o, %r)] and True" % (paths,), True)
    n = len(h.probes)
    h.probe("who(%r)" % (paths,), None)
    h.probe("sorted(i for i, p in log() if not p)", sorted("%s=%d" % (k, x) for k, v in t.values.items() for x in v))
    for code, v in t.calls:
        h.probe(code, v)
    h.features += sorted(t.features)

    from ..engine import Pred
    found = []

    def check(entries):
        found[:] = problems([tuple(e) for e in entries], t)
        return not found

    class P(Pred):
        def __repr__(self):
            return "; ".join(found) or self.text
    h.probes[n] = (h.probes[n][0], P("the blocks %s, then %s" % (t.blocks, t.post), check))
    return h.case(name, n_out=rng.choice([1, 1, 1, 2, 3]))


# -- pragmas -----------------------------------------------------------------
def pragma_case(rng, name):
    r = rng
    files = {"vflog.h": VFLOG}
    lines, want, fns = [], [], []
    n = [0]

    def support(nested=True):
        n[0] += 1
        k = n[0]
        f = "%svfp_%d.%s" % (r.choice(["", "", "sub/", "sub dir/"]), k, r.choice(["h", "hpp", "inc"]))
        guard = r.random() < .7
        text = []
        if guard:
            text.append("#pragma once")
            text.append("GENPYBIND(visible) inline int vfp_fn_%d() { return %d; }" % (k, k))
            fns.append(k)
        text.append("#ifndef VFP_%d\n#define VFP_%d %d\nenum { vfp_k_%d = %d };\n#endif" % (k, k, k, k, k * 3))
        inner = []
        if nested and r.random() < .3:
            g, gi = support(False)
            q = quote(g)
            text.append("#pragma genpybind include " + q)
            # a repeated inclusion of the outer file counts again, unless guarded
            inner = [q] + gi
        files[f] = "#include <genpybind/genpybind.h>\n" + "\n".join(text) + "\n"
        return f, [(guard, inner)] if inner else []

    def quote(f):
        return r.choice(["<%s>", '"%s"']) % f

    def pragma(q):
        return r.choice(["#pragma genpybind include %s", "#  pragma genpybind   include %s", "#pragma genpybind include%s",
                         "  #pragma genpybind include %s  ", "#pragma genpybind include %s // why", "#pragma \\\n genpybind include %s",
                         "#pragma genpybind include %s /* a */", "#pragma /* x */ genpybind include %s"] +
                        ([] if '"' in q else ['_Pragma("genpybind include %s")'])) % q

    used = set()
    done = []
    guarded_ifdef = r.random() < .5
    body = []
    for _ in range(r.randrange(1, 7)):
        w = r.random()
        if w < .7 or not done:
            f, inner = support()
            done.append((f, inner))
        else:
            f, inner = r.choice(done)      # again
        q = quote(f)
        p = pragma(q)
        cond = r.random()
        if cond < .12:
            body.append("#if 0\n%s\n#endif" % p)
            continue
        want.append(q)
        for guard, qs in inner:
            if not (guard and f in used):
                # nested files are guarded or plain, and have no further pragmas
                want.extend(qs)
        used.add(f)
        if cond < .3:
            p = "#if 1\n%s\n#endif" % p
        elif cond < .5:
            p = "#ifdef __GENPYBIND__\n%s\n#endif" % p
        body.append(p)
        if r.random() < .4:
            body.append("namespace z%d { GENPYBIND(visible) inline int zf%d() { return 1; } }" % (len(body), len(body)))
        if r.random() < .2:
            body.append(r.choice(["#pragma GCC diagnostic push\n#pragma GCC diagnostic pop", "#pragma once", "#pragma clang diagnostic push\n#pragma clang diagnostic pop",
                                  "#pragma vendor genpybind include <nothing>", "// #pragma genpybind include <nothing>",
                                  'inline const char *txt%d() { return "#pragma genpybind include <nothing>"; }' % len(body)]))
    seen = sorted({int(re.search(r"vfp_(\d+)", q).group(1)) for q in want})
    shown = [k for k in fns if k in seen]
    lines = body + ["GENPYBIND_MANUAL({ %s })" % " ".join('vflog::value("p%d", vfp_k_%d + VFP_%d);' % (k, k, k) for k in seen)]
    header = PRE + '#include <string>\n#include "vflog.h"\n' + LOG + "\n".join(lines) + "\n"
    probes = [("sorted(k for k in dir(m) if k.startswith('vfp_fn'))", sorted("vfp_fn_%d" % k for k in shown)),
              ("[getattr(m, 'vfp_fn_%%d' %% k)() for k in %r]" % (shown,), shown),
              ("[m.log_id(i) for i in range(m.log_size())]", ["p%d=%d" % (k, 4 * k) for k in seen])]

    def judge(obs):
        out = []
        for n, text in sorted(obs["gen"].items()):
            got = [x for x in re.findall(r"^#include\s+(\S.*?)\s*$", text, re.M) if "vfp_" in x]
            if got != want:
                out.append("%s has the include directives %s, the pragmas are %s" % (n, got, want))
        return out
    return Case(name, header, probes, files=files, judge=judge, n_out=r.choice([1, 1, 2, 4]),
                features=["pragma", "pragma-x%d" % len(want)], cc=["-DVF_NO_PCH"] if r.random() < .3 else [])


BAD = [
    ("#pragma genpybind", "bare"), ("#pragma genpybind foo", "unknown"), ("#pragma genpybind includes <vfp_1.h>", "unknown"),
    ("#pragma genpybind include", "no file"), ("#pragma genpybind include vfp_1.h", "unquoted"),
    ("#pragma genpybind include <vfp_1.h", "unterminated"), ('#pragma genpybind include "vfp_1.h', "unterminated"),
    ("#pragma genpybind include <>", "empty"), ('#pragma genpybind include ""', "empty"),
    ("#pragma genpybind include <vfp_missing.h>", "missing"), ('#pragma genpybind include "vfp_missing.h"', "missing"),
    ("#pragma genpybind include <vfp_1.h> junk", "junk"), ('#pragma genpybind include "vfp_1.h" "vfp_1.h"', "junk"),
    ("#pragma genpybind include <vfp_1.h>;", "junk"), ("#pragma genpybind 5", "not a name"),
    ("#pragma genpybind <vfp_1.h>", "not a name"), ("#pragma genpybind include 5", "unquoted"),
    ("#pragma genpybind define X", "other directive"), ("#pragma genpybind undef VFP_OTHER", "other directive"),
    ("#pragma genpybind error stop", "other directive"), ("#pragma genpybind INCLUDE <vfp_1.h>", "unknown"),
    ("#define VFP_NAME <vfp_1.h>\n#pragma genpybind include VFP_NAME", "macro"),
]


def bad_case(rng, name, which):
    r = rng
    text, what = BAD[which]
    pre = ["GENPYBIND(visible) inline int a%d() { return 1; }" % i for i in range(r.randrange(4))]
    if r.random() < .5:
        pre.append("#pragma genpybind include <vfp_1.h>")
    post = ["GENPYBIND(visible) inline int z%d() { return 1; }" % i for i in range(r.randrange(4))]
    header = PRE + "\n".join(pre + [text] + post) + "\n"
    line = (PRE + "".join(x + "\n" for x in pre)).count("\n") + 1 + text.count("\n")

    def judge(obs):
        lines = {int(x) for x in re.findall(r"\bm\.h:(\d+):\d+: (?:fatal )?error", obs["err"])}
        return [] if line in lines else ["the error in line %d is not reported: %s" % (line, obs["err"][:600])]
    return Case(name, header, expect="error", files={"vfp_1.h": "#pragma once\n"}, judge=judge, note="broken",
                features=["bad-pragma:" + what])


def tasks(rng, tier):
    n = 60 if tier == "quick" else 900
    out = [tree_case(rng, "blocks/%d" % i, i % 2 == 1) for i in range(n)]
    out += [pragma_case(rng, "pragma/%d" % i) for i in range(36 if tier == "quick" else 400)]
    out += [bad_case(rng, "bad/%d" % i, i % len(BAD)) for i in range(len(BAD) * (1 if tier == "quick" else 6))]
    return out
