"""The Python class hierarchy mirrors the exposed C++ hierarchy."""
from ..engine import Exc
from ..gen import H

RULE = ("random class hierarchies (access, virtual and several bases, hidden, inlined and unexposed bases, equal member names, "
        "template bases, namespaces); Python bases, own members, the C++ function every attribute runs, the object every base "
        "conversion reaches, holders and dynamic attributes are compared with a model of C++ lookup; distinct by header text, "
        "non-trivial if bases were compared")

POOL = ["alpha", "beta", "gamma", "delta"]


class K:
    def __init__(self, i, name):
        self.i, self.name = i, name
        self.exposed = True
        self.bases = []         # (K, access, virtual)
        self.members = {}       # name -> (kind, visible?, value)
        self.hide = None        # set of K
        self.inline = None
        self.ns = None
        self.poly = False

    @property
    def cpp(self):
        return "::" + (self.ns + "::" if self.ns else "") + self.name

    def ancestors(self):
        out = []
        for b, _, _ in self.bases:
            for x in [b] + b.ancestors():
                if x not in out:
                    out.append(x)
        return out

    def via_virtual(self, target):
        return any(v and (b is target or target in b.ancestors()) or b.via_virtual(target) for b, _, v in self.bases)

    def paths(self, target, acc="public", hidden=False, hide=()):
        """All paths to target: (accessible, passes a hidden base)."""
        for b, a, _ in self.bases:
            pub, hid = acc == "public" and a == "public", hidden or b in hide
            if b is target:
                yield pub, hid
            else:
                yield from b.paths(target, "public" if pub else "x", hid, hide)

    def policy(self):
        cand, hide, todo = [], set(), [self]
        while todo:
            c = todo.pop()
            hide |= c.hide or set()
            for x in c.inline or set():
                if x not in cand:
                    cand.append(x)
                    todo.append(x)
        inl = {x for x in cand if x in self.ancestors() and any(p and not h for p, h in self.paths(x, hide=hide))}
        return inl, hide

    def pybases(self):
        inl, hide = self.policy()
        out = []

        def go(c):
            for b, a, _ in c.bases:
                if a != "public" or b in hide:
                    continue
                if b in inl:
                    go(b)
                elif b.exposed and b not in out:
                    out.append(b)
        go(self)
        return out

    def lookup(self, name):
        """Classes whose declaration of name is found by C++ lookup in self."""
        if name in self.members:
            return [self]
        out = []
        for b, _, _ in self.bases:
            for x in b.lookup(name):
                if x not in out:
                    out.append(x)
        # a declaration in a class hides those of its bases on the other path (virtual bases)
        return [x for x in out if not any(x in y.ancestors() and y is not x for y in out)]

    def own(self):
        """{name: (kind, value, defining class)} of what the class itself gets."""
        inl, _ = self.policy()
        names = set(self.members)
        for x in inl:
            names |= set(x.members)
        res = {}
        for n in names:
            found = self.lookup(n)
            for f in found:
                if f is self or f in inl:
                    kind, vis, val = f.members[n]
                    if vis in ("private", "hidden") or vis == "inherit" and False:
                        continue
                    # reachable publicly?
                    if f is not self and not any(p and not h for p, h in self.paths(f, hide=self.policy()[1])):
                        continue
                    if f is not self and not any(p for p, _ in self.paths(f)):
                        continue
                    res.setdefault(n, []).append((kind, val, f))
        return res


def mro(c, memo):
    """A Python class mirroring c; raises TypeError if there is no MRO."""
    if c not in memo:
        bs = tuple(mro(b, memo) for b in c.pybases())
        memo[c] = type(c.name, bs or (object,), {})
    return memo[c]


def ambiguous(c, target):
    n = 0
    virt = False

    def go(x, v):
        nonlocal n, virt
        for b, a, w in x.bases:
            if b is target:
                if w:
                    virt = True
                else:
                    n += 1
            go(b, w)
    go(c, False)
    return n + virt > 1


def layered(h):
    """Bases that are inlined and bring annotations of their own."""
    hierarchy(h, True)


def hierarchy(h, layers=False):
    r = h.rng
    n = r.randrange(3, 8)
    top = r.randrange(2, 4)
    if layers:
        n = 2 * top + r.randrange(1, 3)
    cls = []
    nss = [None, None, h.id("n"), h.id("n")]
    for i in range(n):
        c = K(i, h.id("K"))
        c.ns = r.choice(nss)
        c.exposed = r.random() < .75
        c.poly = r.random() < .25
        order = r.random() < .5
        k = r.choice([0, 1, 1, 1, 2, 2, 3])
        cands = cls
        if layers:
            c.exposed = r.random() < .4 or i >= 2 * top
            cands = [] if i < top else [cls[i - top]] if i < 2 * top else cls[top:2 * top]
            k = 9
        for b in r.sample(cands, min(k, len(cands))):
            a = r.choice(["public"] * 6 + ["protected", "private"]) if not layers else "public"
            if a == "private" and any(b.via_virtual(x) for x in b.ancestors()):
                a = "protected"     # classes derived from this one could not be destroyed
            c.bases.append((b, a, a == "public" and not layers and r.random() < .3))
        # the hierarchy must be unambiguous in C++
        while any(ambiguous(c, x) for x in c.ancestors()) or any(b in b2.ancestors() for b, _, _ in c.bases for b2, _, _ in c.bases):
            c.bases.pop()
        c.poly = c.poly or any(b.poly for b, _, _ in c.bases)
        for nm in POOL:
            if r.random() < .35:
                # pybind11 cannot define a function where a base has data of that name,
                # nor a field where a base has static data
                kind = r.choice(["method", "const", "static"] if nm in POOL[:2] else ["field", "property"] if nm == "gamma" else ["static_field"])
                vis = r.choice(["inherit"] * 5 + ["visible", "hidden", "private"])
                if vis == "private" and kind == "property":
                    vis = "inherit"
                c.members[nm] = (kind, vis, (i + 1) * 100 + POOL.index(nm))
        direct = [b for b, _, _ in c.bases]
        if layers and direct:
            if i < 2 * top:
                q = r.random()
                c.hide, c.inline = (set(direct), None) if q < .3 else (None, set(direct)) if q < .8 else (None, None)
            else:
                c.inline = set(r.sample(direct, r.randrange(1, len(direct) + 1)))
        elif c.exposed and direct:
            q = r.random()
            if q < .15:
                c.hide = set(direct) if r.random() < .3 else set(r.sample(direct, r.randrange(1, len(direct) + 1)))
            # members of virtual bases cannot be inlined (known finding)
            anc = [x for x in c.ancestors() if not c.via_virtual(x)]
            if anc and r.random() < .45:
                c.inline = set(anc) if r.random() < .25 else set(r.sample(anc, r.randrange(1, min(3, len(anc)) + 1)))
        elif direct and r.random() < .3:
            c.inline = {r.choice(c.ancestors())}
            if any(c.via_virtual(x) for x in c.inline):
                c.inline = None
        cls.append(c)
        if any(c.via_virtual(x) for x in c.policy()[0]):
            c.inline = None
            if any(c.via_virtual(x) for x in c.policy()[0]):
                c.bases = [(b, a, False) for b, a, v in c.bases[:1]]
                c.hide = None
        # resolve what no program can mean: a name found in unrelated inlined bases
        for nm, found in list(c.own().items()):
            if len(found) > 1:
                c.members[nm] = ("method" if nm in POOL[:2] else "field" if nm == "gamma" else "static_field", "inherit", (i + 1) * 100 + POOL.index(nm))
        try:
            memo = {}
            for x in cls:
                if x.exposed:
                    mro(x, memo)
        except TypeError:
            c.hide, c.inline = None, None
            c.bases = [b for b in c.bases[:1]]
    memo = {}
    # text
    for c in cls:
        lines, after = [], []
        ann = []
        if c.exposed:
            ann.append("visible")
        qual = (lambda b: r.choice([b.name, b.cpp, b.cpp[2:]]))
        fmt = (lambda b: r.choice(['"%s"']) % qual(b))
        if c.hide:
            if c.hide == {b for b, _, _ in c.bases} and r.random() < .5:
                ann.append(r.choice(["hide_base", "hide_base()"]))
            else:
                ann += ["hide_base(%s)" % ", ".join(fmt(b) for b in sorted(c.hide, key=lambda b: b.i))]
        if c.inline:
            if c.inline == set(c.ancestors()) and r.random() < .5:
                ann.append("inline_base")
            elif r.random() < .5:
                ann += ["inline_base(%s)" % fmt(b) for b in sorted(c.inline, key=lambda b: b.i)]
            else:
                ann += ["inline_base(%s)" % ", ".join(fmt(b) for b in sorted(c.inline, key=lambda b: b.i))]
        r.shuffle(ann)
        # an unexposed class with annotations would be visible
        if not c.exposed and ann:
            ann.append("hidden")
        bl = ", ".join(" ".join(x for x in ("virtual" if v else "", a) if x) + " " + b.cpp for b, a, v in c.bases)
        h.add("%sstruct %s%s%s {" % ("namespace %s { " % c.ns if c.ns else "", "GENPYBIND(%s) " % ", ".join(ann) if ann else "", c.name, " : " + bl if bl else ""))
        h.add("  GENPYBIND(hidden) int id_%s = %d;" % (c.name, 7000 + c.i))
        if c.poly:
            h.add("  virtual ~%s() = default;" % c.name)
        for nm, (kind, vis, val) in c.members.items():
            a = {"inherit": "", "visible": "GENPYBIND(visible) ", "hidden": "GENPYBIND(hidden) ", "private": "private: "}[vis]
            t = {"method": "int %s() { return id_%s * 0 + %d; }" % (nm, c.name, val), "const": "int %s() const { return id_%s * 0 + %d; }" % (nm, c.name, val),
                 "static": "static int %s() { return %d; }" % (nm, val), "field": "int %s = %d;" % (nm, val),
                 "static_field": "inline static int %s = %d;" % (nm, val), "property": None}[kind]
            if kind == "property":
                g = "GENPYBIND(%s) int %s() const { return id_%s - %d; }" % ("getter_for(%s)%s" % (nm, {"hidden": ", hidden", "visible": ", visible"}.get(vis, "")), nm, c.name, 7000 + c.i - val)
                h.add("  " + g)
            else:
                h.add("  %s%s%s" % (a, t, " public:" if vis == "private" else ""))
        h.add("};" + (" }" if c.ns else ""))
        if c.exposed:
            h.add("GENPYBIND(visible) inline int take_%s(const %s &o) { return o.id_%s; }" % (c.name, c.cpp, c.name),
                  "GENPYBIND(visible) inline int takep_%s(%s *o) { return o ? o->id_%s : 0; }" % (c.name, c.cpp, c.name))
    # probes
    for c in cls:
        if not c.exposed:
            h.probe("hasattr(m, '%s')" % c.name, False)
            continue
        py = "m." + c.name
        inl, hide = c.policy()
        h.feature("bases/%d" % len(c.pybases()))
        if inl:
            h.feature("inlined")
        if hide:
            h.feature("hidden")
        if any(v for _, _, v in c.bases):
            h.feature("virtual")
        h.probe("[b.__name__ for b in %s.__bases__]" % py, [b.name for b in c.pybases()] or ["pybind11_object"])
        own = c.own()
        h.probe("sorted(own(%s) - {'__init__'})" % py, sorted(own), "own members of " + c.cpp)
        o = h.id("o")
        h.probe("@%s = %s()" % (o, py), None)
        for nm, found in own.items():
            kind, val, _ = found[0]
            h.probe("%s.%s%s" % (o, nm, "()" if kind in ("method", "const", "static") else ""), val)
        up = set()

        def collect(x):
            for b in x.pybases():
                if b not in up:
                    up.add(b)
                    collect(b)
        collect(c)
        for b in cls:
            if not b.exposed:
                continue
            want = 7000 + b.i if b is c or b in up else Exc("TypeError")
            h.probe("m.take_%s(%s)" % (b.name, o), want)
            h.probe("m.takep_%s(%s)" % (b.name, o), want)
        # inherited through Python
        for nm in POOL:
            if nm in own:
                continue
            found = None
            for t in mro(c, memo).__mro__[1:-1]:
                k = next(x for x in cls if x.name == t.__name__)
                if nm in k.own():
                    found = k.own()[nm][0]
                    break
            if found:
                h.probe("%s.%s%s" % (o, nm, "()" if found[0] in ("method", "const", "static") else ""), found[1])
            else:
                h.probe("hasattr(%s, '%s')" % (o, nm), False)
    # modifications through the base reach the object
    for c in cls:
        if c.exposed and c.pybases():
            b = c.pybases()[0]
            h.add("GENPYBIND(visible) inline void bump_%s(%s &o) { o.id_%s += 1000; } GENPYBIND(visible) inline int chk_%s(const %s &o) { const %s &b = o; return b.id_%s; }" % (
                c.name, b.cpp, b.name, c.name, c.cpp, b.cpp, b.name))
            h.probe("@o = m.%s(); m.bump_%s(o); _ = m.chk_%s(o)" % (c.name, c.name, c.name), 8000 + b.i)


def holders(h):
    r = h.rng
    C, D = h.id("C"), h.id("D")
    dyn, dynd = r.choice([("", False), ("dynamic_attr, ", True), ("dynamic_attr(true), ", True), ("dynamic_attr(false), ", False)])
    t = r.choice(["std::shared_ptr<%s>" % C, "::std::shared_ptr<struct %s>" % C])
    base_form = r.random() < .5
    h.add("struct GENPYBIND(visible, %sholder_type(\"%s\")) %s : std::enable_shared_from_this<%s> { inline static int alive = 0; int v = 3; %s() { ++alive; } %s(const %s &o) : std::enable_shared_from_this<%s>(o), v(o.v) { ++alive; } virtual ~%s() { --alive; } };" % (
        dyn, t, C, C, C, C, C, C, C))
    h.add("GENPYBIND(visible) inline std::shared_ptr<{0}> same_{0}(std::shared_ptr<{0}> p) {{ return p; }} GENPYBIND(visible) inline long count_{0}(std::shared_ptr<{0}> p) {{ return p.use_count(); }} GENPYBIND(visible) inline std::shared_ptr<{0}> make_{0}() {{ auto p = std::make_shared<{0}>(); p->v = 8; return p; }} inline std::shared_ptr<{0}> kept_{0}; GENPYBIND(visible) inline void keep_{0}(std::shared_ptr<{0}> p) {{ kept_{0} = p; }} GENPYBIND(visible) inline std::shared_ptr<{0}> kept_get_{0}() {{ return kept_{0}; }}".format(C))
    h.probe("@o = m.{0}(); _ = [m.same_{0}(o) is o, m.count_{0}(o) >= 2, m.make_{0}().v, m.{0}.alive]".format(C), [True, True, 8, 1])
    h.probe("@m.keep_{0}(o); o.v = 44; del o; gc.collect(); _ = [m.{0}.alive, m.kept_get_{0}().v]".format(C), [1, 44])
    h.probe("@m.keep_{0}(None); gc.collect(); _ = m.{0}.alive".format(C), 0)
    h.probe("@o = m.%s(); o.extra = 5; _ = o.extra" % C, 5 if dynd else Exc("AttributeError"))
    h.add("struct GENPYBIND(visible, holder_type(\"std::shared_ptr<%s>\")) %s : %s { int w = 4; };" % (D, D, C))
    h.probe("@o = m.{1}(); _ = [m.same_{0}(o) is o, o.w, m.same_{0}(o).v, isinstance(o, m.{0})]".format(C, D), [True, 4, 3, True])
    h.include("<memory>")


def dynamic(h):
    r = h.rng
    a, b, c = h.id("C"), h.id("C"), h.id("C")
    ann, want = r.choice([("dynamic_attr", True), ("dynamic_attr()", True), ("dynamic_attr(true)", True), ("dynamic_attr(false)", False), ("", False), ("dynamic_attr, dynamic_attr(false)", False)])
    h.add("struct GENPYBIND(visible%s) %s { int v = 1; };" % (", " + ann if ann else "", a), "struct GENPYBIND(visible) %s { int v = 1; };" % b)
    h.probe("@o = m.%s(); o.extra = [1]; _ = o.extra" % a, [1] if want else Exc("AttributeError"))
    h.probe("@o = m.%s(); o.extra = [1]; _ = o.extra" % b, Exc("AttributeError"))
    h.add("struct GENPYBIND(visible, dynamic_attr) %s : %s {};" % (c, b))
    h.probe("@o = m.%s(); o.extra = [1]; _ = o.extra" % c, [1])


def templates(h):
    """Bases that are template instantiations, and CRTP."""
    r = h.rng
    C, D, B, n = h.id("C"), h.id("D"), h.id("B"), h.id("n")
    w = r.randrange(5)
    h.feature("templates/%d" % w)
    if w == 0:
        inst = r.random() < .6
        h.add("template <typename T> struct %s%s { T t = T(4); T get() const { return t; } };" % ("GENPYBIND(visible) " if inst else "", B), "template struct %s<int>;" % B if inst else "",
              "struct GENPYBIND(visible) %s : %s<int> { int o = 1; };" % (C, B), "GENPYBIND(visible) inline int take_%s(const %s<int> &b) { return b.t + 1; }" % (C, B))
        if inst:
            h.probe("[[b.__name__ for b in m.{0}.__bases__], m.{0}().get(), m.take_{0}(m.{0}())]".format(C), [[B + "_int_"], 4, 5])
        else:
            h.probe("[[b.__name__ for b in m.{0}.__bases__], sorted(own(m.{0}) - {{'__init__'}})]".format(C), [["pybind11_object"], ["o"]])
    elif w == 1:
        q = r.choice([B, "::%s::%s" % (n, B), "%s::%s" % (n, B)])
        h.add("namespace %s { template <typename T> struct %s { int x = 3; int twice() const { return 2 * static_cast<const T *>(this)->c; } static int st() { return T::k; } T copy() const { return static_cast<const T &>(*this); } }; }" % (n, B),
              "struct GENPYBIND(visible, inline_base(\"%s\")) %s : %s::%s<%s> { int c = 5; static constexpr int k = 9; };" % (q, C, n, B, C),
              "struct GENPYBIND(visible, inline_base(\"%s\")) %s : %s::%s<%s> { int c = 6; static constexpr int k = 10; };" % (q, D, n, B, D))
        h.probe("[m.{0}().twice(), m.{1}().twice(), m.{0}().st(), m.{1}.st(), m.{0}().copy().c, type(m.{1}().copy()).__name__, m.{0}().x, sorted(own(m.{0}) - {{'__init__'}}), len(m.{0}.__bases__), m.{0}.__bases__[0].__name__]".format(C, D),
                [10, 12, 9, 10, 5, D, 3, ["c", "copy", "k", "st", "twice", "x"], 1, "pybind11_object"])
    elif w == 2:
        h.add("struct GENPYBIND(visible) %s { int b = 2; int get() const { return b; } };" % B,
              "template <typename T> struct GENPYBIND(visible) %s : %s { T t = T(3); };" % (C, B), "template struct %s<int>; template struct %s<double>;" % (C, C))
        h.probe("[[b.__name__ for b in m.{0}_int_.__bases__], m.{0}_int_().get(), m.{0}_double_().get(), issubclass(m.{0}_int_, m.{0}_double_)]".format(C, B), [[B], 2, 2, False])
    elif w == 3:
        h.add("struct GENPYBIND(visible) %s { int b = 2; int get() const { return b; } };" % B,
              "template <typename T> struct %s : T { int mix() const { return this->b + 10; } };" % D,
              "struct GENPYBIND(visible, inline_base(\"%s\")) %s : %s<%s> { int c = 1; };" % (D, C, D, B))
        h.probe("[[b.__name__ for b in m.{0}.__bases__], m.{0}().get(), m.{0}().mix(), sorted(own(m.{0}) - {{'__init__'}})]".format(C), [[B], 2, 12, ["c", "mix"]])
    else:
        h.add("struct GENPYBIND(visible) %s { int b = 2; int get() const { return b; } };" % B, "using %s_alias = %s;" % (B, B), "struct GENPYBIND(visible) %s : %s_alias { int c = 1; };" % (C, B),
              "struct GENPYBIND(visible, hide_base(\"%s\")) %s : %s_alias { int c = 1; };" % (B, D, B))
        h.probe("[[b.__name__ for b in m.%s.__bases__], [b.__name__ for b in m.%s.__bases__]]" % (C, D), [[B], ["pybind11_object"]])


def inlined_kinds(h):
    """Every kind of member of an inlined base, overloads, hiding by name."""
    r = h.rng
    B, C = h.id("B"), h.id("C")
    exposed = r.random() < .5
    h.add("struct %s%s { int f = 1; const int cf = 2; static constexpr int sf = 3; GENPYBIND(readonly) int ro = 4; int over(int) const { return 5; } int over(double) const { return 6; } int hiddenby(int) { return 7; } GENPYBIND(expose_as(renamed)) int orig() { return 8; } GENPYBIND(hidden) int no() { return 9; } static int st(int x = 10) { return x; } GENPYBIND(getter_for(prop)) int gp() const { return f; } GENPYBIND(setter_for(prop)) void sp(int x) { f = x; } int operator+(int x) const { return f + x; } int operator()(int x) const { return f * x; } virtual int vi() { return 11; } virtual ~%s() = default; %s(int) {} %s() = default; protected: int prot() { return 1; } private: int priv = 1; };" % (
        "GENPYBIND(visible) " if exposed else "", B, B, B, B),
        "struct GENPYBIND(visible, inline_base(\"%s\")) %s : %s { int hiddenby(int, int) { return 12; } int vi() override { return 13; } };" % (B, C, B))
    want = {"f": "property", "cf": "property", "sf": "static_property", "ro": "property", "over": "method", "hiddenby": "method", "renamed": "method", "st": "static", "prop": "property", "__add__": "method", "__call__": "method", "vi": "method"}
    h.probe("{k: kind(m.%s.__dict__[k]) for k in own(m.%s) - {'__init__'}}" % (C, C), want)
    h.probe("@o = m.{0}(); a = [o.f, o.cf, o.sf, o.ro, o.over(1), o.over(1.5), o.hiddenby(1, 2), o.renamed(), o.st(), m.{0}.st(4), o.prop, o + 5, o(3), o.vi()]; o.prop = 20; _ = a + [o.f, o(2)]".format(C), [1, 2, 3, 4, 5, 6, 12, 8, 10, 4, 1, 6, 3, 13, 20, 40])
    h.probe("@o = m.%s(); o.ro = 3" % C, Exc("AttributeError"))
    h.probe("@o = m.%s(); o.hiddenby(1)" % C, Exc("TypeError"))
    h.probe("m.%s(5)" % C, Exc("TypeError"))
    if exposed:
        h.probe("[issubclass(m.%s, m.%s), m.%s().hiddenby(1)]" % (C, B, B), [False, 7])


UNITS = [hierarchy] * 5 + [layered] * 2 + [holders, dynamic, templates, templates, inlined_kinds]


def tasks(rng, tier):
    out, order = [], []
    for i in range(72 if tier == "quick" else 2500):
        h = H(rng, ["<memory>"])
        for _ in range(5):
            if not order:
                order = list(UNITS)
                rng.shuffle(order)
            u = order.pop()
            h.feature(u.__name__)
            u(h)
        out.append(h.case("hierarchy/%d" % i))
    return out
