"""The dumped declaration graphs show what is exposed."""
import hashlib
import os
import re
import shutil
from collections import Counter

from .. import build
from ..check import FuncTask, Result
from ..gen import H, PRE
from ..world import World
from ..engine import Case, Pred

RULE = ("random trees of namespaces, classes, enums and class template instantiations with annotations, access sections, "
        "redeclarations, relocations and module restrictions; both dumped graphs are parsed and compared with a model "
        "(nodes, nesting, kinds, names, Python names, visibility), and for a part of the cases with the imported module; "
        "for other programs the generated code is compared with the one generated without the options; "
        "distinct by header text and options, non-trivial if both graphs were parsed and compared")


class Node:
    def __init__(self, kind, name, parent, expl=None, access="public", spelling=None, annotated=False):
        self.kind, self.name, self.parent = kind, name, parent
        self.expl, self.access, self.spelling, self.annotated = expl, access, spelling, annotated
        self.children = []
        self.own = []            # explicit visibilities of declarations that are no nodes
        self.only = None
        self.qual = name if parent is None or parent.kind == "TU" else parent.qual + "::" + name

    def leaf(self):
        return self.qual.rsplit("::", 1)[-1]


VIS = [("", None), ("", None), ("", None), ("visible", True), ("hidden", False), ("visible(true)", True), ("visible(false)", False),
       ("visible(default)", None), ("hidden, visible", True), ("visible, hidden", False), ("hidden, visible(default)", None)]


class Gen:
    def __init__(self, rng, module, safe):
        self.r, self.module, self.safe = rng, module, safe
        self.n = 0
        self.text = []
        self.root = Node("TU", "", None)
        self.budget = rng.randrange(4, 26)
        self.movable = []        # (node, all nodes exist before)
        self.features = set()
        self.spec = []

    def id(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ann(self, name, allow_spelling=True):
        """(text, explicit, spelling, annotated)"""
        r = self.r
        a, v = r.choice(VIS)
        parts = [a] if a else []
        sp = None
        if allow_spelling and r.random() < .25:
            sp = self.id("py") if r.random() < .9 else name
            at = r.randrange(2)
            parts.insert(at if parts else 0, "expose_as(%s)" % sp)
            if not a:
                v = True
        text = " ".join("GENPYBIND(%s)" % p for p in parts) if r.random() < .3 else ("GENPYBIND(%s)" % ", ".join(parts) if parts else "")
        return text, v, sp, bool(parts)

    def scope(self, node, depth, ind):
        r = self.r
        acc = "public"
        for _ in range(r.randrange(0, 6)):
            if self.budget <= 0:
                return
            self.budget -= 1
            record = node.kind in ("CXXRecord",)
            if record and r.random() < .35:
                acc = r.choice(["public", "public", "protected", "private"])
                self.text.append(ind + acc + ":")
            kinds = ["struct"] * 4 + ["enum"] * 2 + ["fn", "alias", "alias"]
            if not record:
                kinds += ["ns"] * 4 + ["var", "tpl", "fwd"]
            k = r.choice(kinds)
            if k == "ns" and depth > 0:
                self.namespace(node, depth, ind)
            elif k == "struct":
                self.record(node, depth, ind, acc)
            elif k == "enum":
                self.enum(node, ind, acc)
            elif k in ("fn", "var"):
                n = self.id(k)
                text, v, sp, annd = self.ann(n)
                st = "static int" if record else "inline int"
                self.text.append("%s%s %s %s%s" % (ind, text, st, n, "() { return 1; }" if k == "fn" or record else " = 1;"))
                if acc == "public":
                    node.own.append(v)
            elif k == "alias":
                self.alias(node, ind, acc)
            elif k == "tpl":
                self.template(node, ind)
            elif k == "fwd":
                self.text.append("%sstruct %s; enum class %s;" % (ind, self.id("Fwd"), self.id("Fe")))

    def namespace(self, node, depth, ind):
        r = self.r
        n = self.id("ns")
        parts, v = [], None
        a, v = r.choice(VIS)
        if a:
            parts.append(a)
        sp = None
        if r.random() < .4:
            if r.random() < .5:
                sp = self.id("sub")
                parts.append("module(%s)" % sp)
            else:
                parts.append("module")
            self.features.add("module")
        only = None
        if node is self.root and r.random() < .25:
            only = r.choice([["other"], [self.module], ["other", self.module], [self.module + "x"]])
            parts.append("only_expose_in(%s)" % ", ".join(only))
            self.features.add("only_expose_in")
        text = "GENPYBIND(%s)" % ", ".join(parts) if parts else ""
        me = Node("Namespace", n, node, v, spelling=sp, annotated=bool(parts))
        me.only = only
        node.children.append(me)
        for _ in range(1 if r.random() < .7 else 2):
            self.text.append("%snamespace %s %s {" % (ind, n, text))
            self.scope(me, depth - 1, ind + " ")
            self.text.append(ind + "}")
            self.features.add("namespace")

    def record(self, node, depth, ind, acc):
        r = self.r
        n = self.id("S")
        text, v, sp, annd = self.ann(n)
        if self.safe and acc != "public" and (v or sp):
            text, v, sp, annd = "", None, None, False
        me = Node("CXXRecord", n, node, v, acc, sp, annd)
        node.children.append(me)
        kw = r.choice(["struct", "class", "union"])
        if r.random() < .15:
            self.text.append("%s%s %s;" % (ind, kw, n))
        self.text.append("%s%s %s %s {%s" % (ind, kw, text, n, "" if kw != "class" else " public:"))
        if depth > 0:
            self.scope(me, depth - 1, ind + " ")
        self.text.append(ind + "};")
        if acc == "public" and self.public(node):
            self.movable.append(me)
        self.features.add(kw)

    def public(self, n):
        while n is not None:
            if n.access != "public":
                return False
            n = n.parent
        return True

    def enum(self, node, ind, acc):
        r = self.r
        n = self.id("E")
        text, v, sp, annd = self.ann(n)
        if self.safe and acc != "public" and (v or sp):
            text, v, sp, annd = "", None, None, False
        me = Node("Enum", n, node, v, acc, sp, annd)
        me.own.append(None)
        node.children.append(me)
        self.text.append("%senum %s%s %s { %s };" % (ind, r.choice(["", "class "]), text, n, self.id("e") if r.random() < .7 else ""))
        if acc == "public" and self.public(node):
            self.movable.append(me)
        self.features.add("enum")

    def alias(self, node, ind, acc):
        """Moves or encourages something declared before."""
        r = self.r
        anc = set()
        p = node
        while p is not None:
            anc.add(id(p))
            p = p.parent
        cand = [x for x in self.movable if id(x) not in anc]
        if not cand or acc != "public":
            return
        t = r.choice(cand)
        # nothing may end up below itself
        n = self.id("Al")
        self.movable.remove(t)
        if r.random() < .7:
            a, v = r.choice([("", True), ("visible", True), ("hidden", False), ("visible(default)", None)])
            sp = self.id("py") if r.random() < .3 else None
            parts = ([a] if a else []) + (["expose_as(%s)" % sp] if sp else [])
            parts.insert(r.randrange(len(parts) + 1) if not a else len(parts), "expose_here")
            self.text.append("%susing %s GENPYBIND(%s) = ::%s;" % (ind, n, ", ".join(parts), t.qual))
            node.own.append(v)
            t.parent.children.remove(t)
            t.parent = node
            node.children.append(t)
            t.expl, t.spelling, t.annotated = v, sp or n, True
            # a type and what it contains can be moved only once
            self.features.add("expose_here")
        else:
            self.text.append("%susing %s GENPYBIND(encourage) = ::%s;" % (ind, n, t.qual))
            node.own.append(True)
            t.expl, t.annotated = True, True
            self.features.add("encourage")

    def template(self, node, ind):
        r = self.r
        n = self.id("T")
        text, v, sp, annd = self.ann(n, allow_spelling=False)
        inner = r.random() < .6
        iname = self.id("In")
        self.text.append("%stemplate <typename T> struct %s %s { T x; %s};" % (ind, text, n, "struct %s { T y; }; " % iname if inner else ""))
        for a in r.sample(["int", "double", "char"], r.randrange(0, 3)):
            how = r.choice(["explicit", "use"])
            me = Node("ClassTemplateSpecialization", "%s<%s>" % (n, a), node, v, "public", "%s_%s_" % (n, a) if annd else None, annd)
            me.own.append(None)
            if how == "explicit":
                self.text.append("%stemplate struct %s<%s>;" % (ind, n, a))
            else:
                u = self.id("use")
                self.text.append("%sstruct %s { %s<%s> a%s; };" % (ind, u, n, a, "; %s<%s>::%s b" % (n, a, iname) if inner else ""))
                un = Node("CXXRecord", u, node)
                un.own.append(None)
                node.children.append(un)
            if inner:
                i = Node("CXXRecord", iname, me)
                i.own.append(None)
                me.children.append(i)
            node.children.append(me)
            self.features.add("instantiation:" + how)

    # -- model -----------------------------------------------------------------
    def evaluate(self):
        """Effective visibility and what remains after pruning."""
        def eff(n, inherited):
            n.vis = inherited if n.access == "public" else False
            if n.expl is not None:
                n.vis = n.expl
            for c in n.children:
                eff(c, n.vis)
        self.root.vis = False
        for c in self.root.children:
            eff(c, False)

        def has(n):
            """Contains something visible."""
            out = any([has(c) for c in n.children if c.kind == "Namespace"]) | \
                any(c.vis for c in n.children if c.kind != "Namespace") | \
                any(v if v is not None else n.vis for v in n.own)
            n.has = bool(out)
            return n.has
        has(self.root)

        def prune(n):
            n.kept = []
            for c in n.children:
                if c.only is not None and self.module not in c.only:
                    continue
                if c.vis if c.kind != "Namespace" else c.has:
                    n.kept.append(c)
                    prune(c)
        prune(self.root)
        # Declarations that are no nodes (forward declarations, templates, enumerators of a
        # relocated unscoped enum) may also keep a namespace; that adds nothing to the module.
        self.empty = set()

        def empty(n):
            for c in n.children:
                if c.kind == "Namespace" and (c.only is None or self.module in c.only):
                    if not c.has:
                        self.empty.add(self.label(c))
                    empty(c)
        empty(self.root)

    def tree(self, n, attr):
        return tuple(sorted((self.label(c),) + (self.tree(c, attr),) for c in getattr(n, attr)))

    def label(self, n):
        as_ = ""
        if n.annotated and n.spelling and n.spelling != n.leaf():
            as_ = " as '%s'" % n.spelling
        return "%s '%s'%s: %s" % (n.kind, n.qual, as_, "visible" if n.vis else "hidden")


ANY = Pred("anything", lambda v: True)
LINE = re.compile(r"^((?:[| ] )*)[|`]-(.*)$")


def parse(text):
    """Unordered tree of labels; blocks of one namespace are merged."""
    root = []
    stack = [root]
    for line in text.splitlines():
        m = LINE.match(line)
        if not m:
            continue
        depth = len(m.group(1)) // 2
        del stack[depth + 1:]
        label = m.group(2)
        node = next((c for c in stack[depth] if c[0] == label and label.startswith("Namespace ")), None)
        if node is None:
            node = (label, [])
            stack[depth].append(node)
        stack.append(node[1])

    def freeze(t):
        return tuple(sorted((lab, freeze(c)) for lab, c in t))
    return freeze(root)


def strip(t, labels):
    """Without the childless namespaces with those labels."""
    out = []
    for lab, c in t:
        c = strip(c, labels)
        if c or lab not in labels:
            out.append((lab, c))
    return tuple(sorted(out))


def show(t, ind="  "):
    return "".join("%s%s\n%s" % (ind, lab, show(c, ind + "  ")) for lab, c in t)


def split(err):
    """(unpruned, pruned) texts of the dumps"""
    parts = re.split(r"(?m)^(Declaration context graph.*)$", err)
    got = {}
    for title, body in zip(parts[1::2], parts[2::2]):
        got.setdefault("pruned" if "after pruning" in title else "visibility", []).append(body)
    return got


def tags(t):
    for lab, c in t:
        m = re.match(r"(\w+) '(.*?)'(?: as '(.*)')?: (\w+)$", lab)
        if m.group(1) != "Namespace":
            yield m.group(3) or re.sub(r"[^A-Za-z0-9_]+", "_", m.group(2).rsplit("::", 1)[-1])
        yield from tags(c)


def case(rng, i, safe):
    module = rng.choice(["m", "m", "other", "mod_1"])
    while True:
        g = Gen(rng, module, safe)
        g.scope(g.root, rng.randrange(1, 5), "")
        if g.root.children:
            break
    if safe:
        # instantiations of visible templates have no members here that could fail
        pass
    g.evaluate()
    want = {"visibility": g.tree(g.root, "children"), "pruned": g.tree(g.root, "kept")}
    which = rng.choice([["visibility", "pruned"], ["visibility", "pruned"], ["pruned"], ["visibility"]]) if not safe else ["visibility", "pruned"]

    def judge(obs):
        got = split(obs["err"])
        problems = []
        for w in want:
            bodies = got.get(w, [])
            if len(bodies) != (w in which):
                problems.append("%d graphs for %s printed" % (len(bodies), w))
            for body in bodies:
                t = parse(body)
                if w == "pruned":
                    t = strip(t, g.empty)
                if t != want[w]:
                    problems.append("%s graph\nexpected\n%sobserved\n%s" % (w, show(want[w]), show(t)))
        if safe and not problems and obs.get("py"):
            names = Counter(tags(parse(got["pruned"][0])))
            have = Counter({k: v for k, v in (obs["py"]["probes"].get("0") or [])})
            if names != have:
                problems.append("the classes and enums of the pruned graph %s are not those of the module %s" % (sorted(names.items()), sorted(have.items())))
        return problems
    args = ["--dump-graph=" + w for w in which]
    rng.shuffle(args)
    c = Case("graph/%s/%d" % ("module" if safe else "dump", i), PRE + "\n".join(g.text) + "\n",
             [("sorted(__import__('collections').Counter(k.split('.')[-1] for k, v in api(m).items() if v in ('class', 'enum')).items())", ANY)] if safe else [],
             module=module, tool_args=args + ["--module-name=" + module], expect="ok" if safe else "accept",
             features=sorted(g.features) + ["dump:" + "+".join(sorted(which))], judge=judge)
    return c


def same_code(rng, i):
    """The options do not change what is generated."""
    if rng.random() < .5:
        h = H(rng)
        World(rng, budget=rng.randrange(15, 50), depth=4).fill(h)
        text = h.header()
    else:
        g = Gen(rng, "m", True)
        while not g.root.children:
            g.scope(g.root, rng.randrange(1, 5), "")
        text = PRE + "\n".join(g.text) + "\n"
    n_out = rng.choice([0, 1, 1, 2])
    combos = [[], ["--dump-graph=visibility"], ["--dump-graph=pruned"], ["--dump-graph=pruned", "--dump-graph=visibility"], ["--verbose"],
              ["--verbose", "--dump-graph=pruned"]]

    def f(eng):
        d = eng.workdir()
        try:
            main = os.path.join(d, "m.h")
            with open(main, "w") as o:
                o.write(text)
            seen, problems = {}, []
            for k, opts in enumerate(combos):
                outs = [os.path.join(d, "o%d.cpp" % j) for j in range(n_out)]
                args = list(opts)
                for o in outs or ["-"]:
                    args += ["-o", o]
                rc, out, err = eng.run_tool(args + [main, "--", "-I" + build.REPO + "/public", "-std=c++20"], cwd=d)
                san = eng.sanitizer_report(rc, err)
                if rc is None or san:
                    problems.append("%s: %s" % (opts, san or "timeout"))
                code = [out]
                for o in outs:
                    code.append(open(o).read() if os.path.exists(o) else None)
                    if os.path.exists(o):
                        os.unlink(o)
                seen.setdefault((rc, repr(code)), []).append(opts)
                for w in ("visibility", "pruned"):
                    n = len(split(err).get(w, []))
                    if n != ("--dump-graph=" + w in opts):
                        problems.append("%s: %d %s graphs printed" % (opts, n, w))
            if len(seen) > 1:
                problems.append("generated code or exit status differ between the options %s" % list(seen.values()))
            eng.count("compared", len(combos))
            return Result(problems, hashlib.sha256((text + str(n_out)).encode()).hexdigest()[:16], len(seen) == 1 and next(iter(seen))[0] == 0,
                          ["same code", "outputs/%d" % n_out], {"case": "same/%d" % i, "header": text[:1500]}, evals=len(combos))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return FuncTask("same/%d" % i, f, text)


def tasks(rng, tier):
    quick = tier == "quick"
    out = [case(rng, i, False) for i in range(500 if quick else 8000)]
    out += [case(rng, i, True) for i in range(24 if quick else 300)]
    out += [same_code(rng, i) for i in range(30 if quick else 800)]
    return out
