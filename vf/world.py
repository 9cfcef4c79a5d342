"""Random annotated programs together with the Python interface they describe.

The model computes, while the C++ text is written, which attributes the module
has to have (dotted name -> kind) and the number each of them denotes."""
from .gen import H, VAL

NAMES = ["alpha", "beta", "kappa", "delta", "eps", "zeta", "eta", "theta", "get", "value",
         "run", "make", "size", "next", "item", "node", "Foo", "Bar", "Baz", "Qux", "data",
         "context", "root", "parent", "_priv", "x_1", "x_2", "lhs", "std_", "Ab", "aB"]


class Cpp:
    """A C++ scope: which names are taken."""

    def __init__(self, qual, kind, parent=None):
        self.qual, self.kind, self.used = qual, kind, set()
        self.parent = parent


class Py:
    """A Python scope (or None for "not exposed")."""

    def __init__(self, path, used=None):
        self.path, self.used = path, used if used is not None else set()


class World:
    def __init__(self, rng, budget=24, depth=3, aliases=True, only_in=None, module="m",
                 rename=0.35, explicit=0.5, ops=True, foreign=False):
        self.rng = rng
        self.budget = budget
        self.maxdepth = depth
        self.aliases = aliases
        self.only_in = only_in
        self.module = module
        self.rename = rename
        self.explicit = explicit
        self.ops = ops
        self.foreign = foreign
        self.expected = {}
        self.values = {}
        self.num = 100
        self.hoisted = []
        self.targets = []         # (qualified, python path, kind) of exposed tags so far
        self.identity = []        # (alias path, target path)
        self.constructible = {}   # class path -> bool
        self.features = set()
        self.pool_n = 0
        self.ctor_probes = []
        self.ident = 0
        self.hoisting = False
        self.in_linkage = False
        self.committed = 0

    # -- helpers -------------------------------------------------------------
    def number(self):
        self.num += 1
        return self.num

    def name(self, cpp, py, spell=None):
        """A C++ name free in cpp, and a Python name free in py."""
        r = self.rng
        for _ in range(40):
            n = r.choice(NAMES)
            if n not in cpp.used and n != cpp.qual.split("::")[-1]:
                break
        else:
            self.ident += 1
            n = "n%d" % self.ident
        cpp.used.add(n)
        return n

    def pyname(self, cname, py, force=None):
        """(python name, needs expose_as)"""
        r = self.rng
        taken = py.used if py is not None else set()
        if cname not in taken and r.random() >= self.rename:
            taken.add(cname)
            return cname, False
        for _ in range(40):
            n = r.choice(NAMES) + r.choice(["", "", "_", "2"])
            if n not in taken:
                break
        else:
            self.ident += 1
            n = "p%d" % self.ident
        taken.add(n)
        return n, True

    def put(self, py, name, kind, value=None):
        path = (py.path + "." if py.path else "") + name
        assert path not in self.expected, path
        self.expected[path] = kind
        if value is not None:
            self.values[path] = value
        return path

    def vis(self, p=None):
        """(annotation fragments, explicit visibility or None)"""
        r = self.rng
        if r.random() >= (self.explicit if p is None else p):
            return [], None
        v = r.choice(["visible", "visible", "visible(true)", "hidden", "hidden", "visible(false)",
                      "hidden,visible", "visible,hidden", "visible(default)", "hidden,visible(default)"])
        parts = v.split(",")
        last = parts[-1]
        val = {"visible": True, "visible(true)": True, "hidden": False, "visible(false)": False,
               "visible(default)": None}[last]
        self.features.add("vis:" + last)
        return parts, val

    def annotate(self, parts):
        r = self.rng
        if not parts:
            return ""
        if self.foreign and r.random() < .1:
            # annotations for other tools do not matter
            self.features.add("foreign")
            return '__attribute__((annotate("%s"))) GENPYBIND(%s)' % (r.choice(["x", "hidden", "visible(false)", ""]), ", ".join(parts))
        if len(parts) > 1 and r.random() < 0.3:
            return "GENPYBIND(%s) GENPYBIND(%s)" % (parts[0], ", ".join(parts[1:]))
        return "GENPYBIND(%s)" % r.choice([", ", ","]).join(parts)

    def spelled(self, n):
        if self.rng.random() < .1:
            self.features.add("expose_as-twice")
            return "expose_as(first_%d), expose_as(%s)" % (self.number(), n)
        return self.rng.choice(['expose_as(%s)', 'expose_as("%s")']) % n

    def unspelled(self):
        """Takes a name back."""
        self.features.add("expose_as-default")
        return ["expose_as(taken_%d), expose_as(default)" % self.number()] if self.rng.random() < .7 else ["expose_as(default)"]

    def member_annotation(self, cname, py, default, accessible=True):
        """Annotation of a non-context declaration; returns (text, exposed python
        name or None)."""
        parts, v = self.vis()
        expl = v if parts else None
        visible = default if expl is None else expl
        if not parts and self.rng.random() < 0.15:
            parts, visible = ["@"], True      # only a name: implies visible
        if parts and parts != ["@"] and expl is None:
            visible = default
        exposed = visible and accessible and py is not None
        if exposed:
            pn, need = self.pyname(cname, py)
            if parts == ["@"]:
                need, parts = True, []
            if need:
                sp = self.spelled(pn)
                if not parts:
                    if not default or self.rng.random() < .5:
                        parts = [sp]
                    else:
                        parts = ["visible", sp]
                else:
                    parts = parts + [sp]
                self.features.add("expose_as")
            elif self.rng.random() < .08:
                parts = parts + self.unspelled()
            return self.annotate(parts), pn
        if parts == ["@"]:
            parts = [self.spelled("unused_%d" % self.number())]
        elif parts and self.rng.random() < .2:
            parts = [self.spelled("unused_%d" % self.number())] + parts
            if v is None:
                # expose_as implies visible, `default` takes that back
                pass
        return self.annotate(parts), None

    # -- declarations ----------------------------------------------------------
    def function(self, cpp, py, default):
        c = self.name(cpp, py)
        k = self.number()
        a, pn = self.member_annotation(c, py, default)
        r = self.rng
        style = r.randrange(5)
        if pn:
            self.put(py, pn, "function", k)
        if style == 0:
            return "inline int %s() %s;\ninline int %s() { return %d; }" % (c, a, c, k)
        if style == 1:
            return "inline int %s();\n%s inline int %s() { return %d; }" % (c, a, c, k)
        if style == 2:
            return "%s inline int %s();\ninline int %s() { return %d; }" % (a, c, c, k)
        return "%s inline int %s() { return %d; }" % (a, c, k)

    def deleted_function(self, cpp, py, default):
        c = self.name(cpp, py)
        parts, v = self.vis()
        self.features.add("deleted")
        return "%s int %s() = delete;" % (self.annotate(parts), c)

    def variable(self, cpp, py, default):
        c = self.name(cpp, py)
        k = self.number()
        a, pn = self.member_annotation(c, py, default)
        if pn:
            self.put(py, pn, "value", k)
        return self.rng.choice(["%s inline int %s = %d;", "%s constexpr int %s = %d;",
                                "%s static const int %s = %d;"]) % (a, c, k)

    def enum(self, cpp, py, default, accessible=True, relocated=None):
        r = self.rng
        c = self.name(cpp, py)
        scoped = r.random() < .5
        ecpp = Cpp(cpp.qual + "::" + c, "enum")
        ecpp.used |= {"value", "name"}    # attributes of every pybind11 enum
        parts, v, exposed, pn, target_py = self.tag_annotation(c, py, default, accessible, relocated)
        path = self.put(target_py, pn, "enum") if exposed else None
        export = None
        if not relocated and r.random() < .3:
            export = r.random() < .5
            if parts or not exposed:
                parts = parts + ["export_values" + r.choice(["(%s)" % str(export).lower()] if not export else
                                                            ["", "(true)"])]
                if not exposed and v is None and "hidden" not in parts:
                    parts.append("hidden")
            else:
                export = None
        if export is None:
            export_eff = not scoped
        else:
            export_eff = export
        # an annotation as such implies visibility; keep the model's verdict
        items = []
        epy = Py(path, set()) if exposed else None
        own = []
        for i in range(r.randrange(1, 4)):
            en = self.name(ecpp, epy)
            if not scoped:
                # shares the scope of the enum
                while en in cpp.used:
                    self.ident += 1
                    en = "e%d" % self.ident
                cpp.used.add(en)
            k = self.number()
            # a Python name free in the enum and, if exported, outside
            ea, epn = "", None
            eparts, ev = self.vis(.3)
            ok = exposed and (ev if ev is not None else True)
            if ok:
                taken = set(epy.used) | (target_py.used if export_eff else set())
                tmp = Py("", taken | {"value", "name"})
                epn, need = self.pyname(en, tmp)
                epy.used.add(epn)
                if export_eff:
                    target_py.used.add(epn)
                if need:
                    eparts = eparts + [self.spelled(epn)]
                self.put(epy, epn, "enumerator", k)
                if export_eff:
                    self.put(target_py, epn, "enumerator", k)
            ea = self.annotate(eparts)
            items.append("%s %s = %d" % (en, ea, k))
        self.features.add("enum-scoped" if scoped else "enum-unscoped")
        if exposed:
            self.targets.append((cpp.qual + "::" + c, path, "enum"))
        return "enum %s%s %s%s { %s };" % (r.choice(["class ", "struct "]) if scoped else "",
                                           self.annotate(parts), c,
                                           " : long" if r.random() < .3 else "", ", ".join(items)), c

    def tag_annotation(self, c, py, default, accessible, relocated):
        """For a class or enum: (annotation parts, explicit, exposed, python name, scope)"""
        if relocated is not None:
            scope, pn = relocated
            parts = self.rng.choice([[], [], ["visible"], ["hidden"]])
            return parts, True, scope is not None, pn, scope
        if not accessible:
            return [], None, False, None, None
        parts, v = self.vis()
        visible = default if v is None else v
        exposed = visible and py is not None
        pn = None
        if exposed:
            pn, need = self.pyname(c, py)
            if need:
                sp = self.spelled(pn)
                parts = parts + [sp]
                self.features.add("expose_as")
            elif self.rng.random() < .08:
                parts = parts + self.unspelled()
        return parts, v, exposed, pn, py

    def cls(self, cpp, py, default, depth, accessible=True, relocated=None):
        """Returns (text, name)."""
        r = self.rng
        c = self.name(cpp, py)
        me = Cpp(cpp.qual + "::" + c, "class", cpp)
        me.used.add(c)
        parts, v, exposed, pn, scope = self.tag_annotation(c, py, default, accessible, relocated)
        path = self.put(scope, pn, "class") if exposed else None
        mypy = Py(path) if exposed else None
        inner_default = bool(exposed)
        kw = r.choice(["struct", "class"])
        lines = []
        head = "%s %s %s" % (kw, self.annotate(parts), c)
        if r.random() < .2:
            lines.append("%s %s;" % (kw, c))
        lines.append(head + " {")
        access = "public" if kw == "struct" else "private"
        n = r.randrange(1, 5)
        # default constructor: implicit unless another one is declared
        ctor = r.randrange(6)
        constructible = exposed
        body = []
        if ctor == 0:
            ap, cv = r.choice([("GENPYBIND(hidden)", False), ("GENPYBIND(visible)", True), ("", None)])
            body.append(("public", "%s %s() {}" % (ap, c)))
            constructible = exposed and cv is not False
            if exposed:
                self.ctor_probes.append((path, "", "ok" if constructible else "no"))
        elif ctor == 1:
            body.append((r.choice(["private", "protected"]), "%s() {}" % c))
            constructible = False
            if exposed:
                self.ctor_probes.append((path, "", "no"))
        elif ctor == 2:
            # several, told apart by the number of arguments
            constructible = False
            for argc in range(3):
                if r.random() < .3:
                    continue
                how = r.choice(["", "", "GENPYBIND(hidden)", "GENPYBIND(visible)", "private", "deleted"])
                acc = "private" if how == "private" else "public"
                ann = how if how.startswith("GENPYBIND") else ""
                body.append((acc, "%s %s(%s)%s" % (ann, c, ", ".join(["int"] * argc),
                                                  " = delete;" if how == "deleted" else " {}")))
                ok = exposed and how in ("", "GENPYBIND(visible)")
                if argc == 0:
                    constructible = ok
                if exposed:
                    self.ctor_probes.append((path, ", ".join(["1"] * argc), "ok" if ok else "no"))
            if not any("(" in t and t.rstrip().endswith(("{}", "delete;")) for _, t in body):
                constructible = exposed
            self.features.add("constructors")
        for _ in range(n):
            self.budget -= 1
            acc = r.choice(["public"] * 4 + ["protected", "private"])
            pub = acc == "public"
            what = r.choice(["method", "method", "cmethod", "static", "field", "cfield", "sfield",
                             "nested", "enum", "deleted", "alias0", "op", "conv", "alias", "expose_here"])
            body.append((acc, self.member(what, me, mypy, inner_default, pub, constructible, depth)))
        for acc, text in body:
            if not text:
                continue
            if acc != access:
                lines.append(acc + ":")
                access = acc
            lines.append(text)
        lines.append("};")
        if exposed:
            self.targets.append((me.qual, path, "class"))
            self.features.add("class")
        else:
            self.features.add("class-hidden")
        return "\n".join(lines), c

    def member(self, what, me, py, default, pub, constructible, depth):
        r = self.rng
        if what in ("method", "cmethod", "static", "field", "cfield", "sfield"):
            c = self.name(me, py)
            k = self.number()
            a, pn = self.member_annotation(c, py, default, pub)
            if not pub:
                # explicit annotations on inaccessible members stay without effect
                pass
            kind = {"method": "method", "cmethod": "method", "static": "static", "field": "property",
                    "cfield": "property", "sfield": "static_property"}[what]
            if pn:
                ok = constructible or kind in ("static", "static_property")
                self.put(py, pn, kind, k if ok else None)
            return {"method": "%s int %s() { return %d; }", "cmethod": "%s int %s() const { return %d; }",
                    "static": "%s static int %s() { return %d; }", "field": "%s int %s = %d;",
                    "cfield": "%s const int %s = %d;", "sfield": "%s inline static int %s = %d;"}[what] % (a, c, k)
        if what in ("nested", "enum") and self.in_linkage:
            return ""    # known finding C08-linkage-nested
        if what == "nested":
            if depth <= 0:
                return ""
            return self.cls(me, py, default and pub, depth - 1, pub)[0]
        if what == "enum":
            return self.enum(me, py, default and pub, pub)[0]
        if what == "deleted":
            return self.deleted_function(me, py, default)
        if what == "alias0":
            # does not inherit visibility
            return self.alias0(me, py)
        if what == "op":
            if not self.ops:
                return ""
            op, py_op = r.choice([("+", "__add__"), ("-", "__sub__"), ("*", "__mul__"), ("<", "__lt__")])
            if "op" + op in me.used:
                return ""
            me.used.add("op" + op)
            parts, v = self.vis(.4)
            if (v if v is not None else default) and pub and py is not None:
                self.put(py, py_op, "method")
            return "%s int operator%s(int) const { return 1; }" % (self.annotate(parts), op)
        if what == "conv":
            return ""
        if what == "alias":
            return self.alias(me, py) if pub and self.aliases else ""
        if what == "expose_here":
            return self.expose_here(me, py, depth) if pub and self.aliases else ""
        raise AssertionError(what)

    def usable(self):
        """Targets declared before the text being written."""
        return self.targets[:self.committed] if self.hoisting else self.targets

    def alias(self, cpp, py):
        """A visible alias of something exposed before."""
        r = self.rng
        if not self.usable():
            return ""
        qual, path, kind = r.choice(self.usable())
        c = self.name(cpp, py)
        if py is None:
            return "using %s GENPYBIND(%s) = %s;" % (c, r.choice(["visible", "hidden"]), qual) \
                if r.random() < .5 else ""
        pn, need = self.pyname(c, py)
        p = self.put(py, pn, "alias-" + kind)
        self.identity.append((p, path))
        a = self.annotate([self.spelled(pn)] if need and r.random() < .5 else
                          ["visible"] + ([self.spelled(pn)] if need else []))
        self.features.add("alias")
        return ("using %s %s = %s;" % (c, a, qual)) if r.random() < .6 else \
            "typedef %s %s %s;" % (qual, c, a)

    def alias0(self, cpp, py):
        """An alias that is not exposed, also not in a visible scope."""
        r = self.rng
        c = self.name(cpp, py)
        self.features.add("alias-unexposed")
        if r.random() < .4 or not self.usable():
            return "using %s = int;" % c
        return "using %s %s = %s;" % (c, r.choice(["", "GENPYBIND(hidden)", "GENPYBIND(visible(default))"]),
                                      r.choice(self.usable())[0])

    def pool(self):
        """A scope to take a declaration out of: (cpp scope, opening, closing)."""
        r = self.rng
        self.pool_n += 1
        n = "pool%d" % self.pool_n
        q = r.randrange(10)
        if q < 4:
            return Cpp("::" + n, "ns"), "namespace %s {" % n, "}"
        if q < 6:
            return Cpp("::" + n, "class"), "struct %s {" % n, "};"
        self.features.add("expose_here-from-visible")
        if q < 8:
            # the target would have been visible there
            return Cpp("::" + n, "ns"), "namespace %s GENPYBIND(%s) {" % (n, r.choice(
                ["visible", "visible, module", "module"])), "}"
        self.rootpy.used.add(n)
        self.put(self.rootpy, n, "class")
        return Cpp("::" + n, "class"), "struct GENPYBIND(visible) %s {" % n, "};"

    def expose_here(self, cpp, py, depth):
        r = self.rng
        if py is None and r.random() < .5:
            return ""
        pool, opening, closing = self.pool()
        c = self.name(cpp, py)
        pn, need = (None, False) if py is None else self.pyname(c, py)
        before, self.hoisting = (self.hoisting, self.in_linkage), True
        self.in_linkage = False
        if r.random() < .35:
            text, name = self.enum(pool, None, False, True, (py, pn))
        else:
            text, name = self.cls(pool, None, False, max(0, depth - 1), True, (py, pn))
        self.hoisting, self.in_linkage = before
        self.hoisted.append("%s\n%s\n%s" % (opening, text, closing))
        parts = ["expose_here"] + ([self.spelled(pn)] if need else [])
        r.shuffle(parts)
        self.features.add("expose_here")
        q = pool.qual + "::" + name
        return "using %s %s = %s;" % (c, self.annotate(parts), q) if r.random() < .7 else \
            "typedef %s %s %s;" % (q, c, self.annotate(parts))

    def encourage(self, cpp, py, depth):
        """The target becomes visible where it is (a transparent namespace)."""
        r = self.rng
        self.pool_n += 1
        n = "pool%d" % self.pool_n
        pool = Cpp("::" + n, "ns")
        root = self.rootpy
        tn = self.name(pool, root)
        while tn in root.used:
            self.ident += 1
            tn = "T%d" % self.ident
        root.used.add(tn)
        kind = r.choice(["class", "enum"])
        path = self.put(root, tn, kind)
        k = self.number()
        if kind == "class":
            self.expected[path + ".fld"] = "property"
            self.values[path + ".fld"] = k
            text = "struct %s { int fld = %d; };" % (tn, k)
        else:
            self.expected[path + ".en"] = "enumerator"
            self.values[path + ".en"] = k
            text = "enum class %s { en = %d };" % (tn, k)
        self.hoisted.append("namespace %s { %s }" % (n, text))
        c = self.name(cpp, py)
        self.features.add("encourage")
        if r.random() < .3:
            return "using %s GENPYBIND(%s) = %s::%s;" % (c, r.choice(["encourage, hidden", "hidden, encourage"]),
                                                         pool.qual, tn)
        pn, need = self.pyname(c, py)
        p = self.put(py, pn, "alias-" + kind)
        self.identity.append((p, path))
        return "using %s %s = %s::%s;" % (c, self.annotate(["encourage"] + ([self.spelled(pn)] if need else [])),
                                          pool.qual, tn)

    def namespace(self, cpp, py, default, depth):
        r = self.rng
        c = self.name(cpp, py)
        me = Cpp(cpp.qual + "::" + c, "ns")
        inl = "inline " if r.random() < .15 else ""
        if inl:
            me.used = cpp.used    # its members are also members of the enclosing scope
            cpp.used |= {"context", "root", "parent"}    # clang prints types in global inline namespaces unqualified
            self.features.add("inline-namespace")
        parts, v = self.vis()
        visible = default if v is None else v
        mypy = py
        hidden_by_module = False
        if self.only_in and r.random() < .5:
            names = r.sample(self.only_in, r.randrange(1, len(self.only_in) + 1))
            parts = parts + ["only_expose_in(%s)" % ", ".join(r.choice(['%s', '"%s"']) % x for x in names)]
            hidden_by_module = self.module not in names
            self.features.add("only_expose_in:" + ("no" if hidden_by_module else "yes"))
        if r.random() < .45:
            pn = None
            if py is not None:
                pn, need = self.pyname(c, py)
                if need:
                    parts = parts + r.choice([['module(%s)' % pn], ['module("%s")' % pn],
                                              ["module", "expose_as(%s)" % pn]])
                else:
                    parts = parts + ["module"]
                path = self.put(py, pn, "module")
                mypy = Py(path)
            else:
                parts = parts + ["module"]
            self.features.add("submodule")
        elif self.rng.random() < .1:
            pass
        if hidden_by_module:
            mypy = None
        chunks = []
        a = self.annotate(parts)
        blocks = r.choice([1, 1, 2])
        if blocks == 2:
            self.features.add("reopened")
        for _ in range(blocks):
            body = self.scope_items(me, mypy, visible, depth - 1, r.randrange(1, 4))
            chunks.append(inl + ("namespace %s %s {\n%s\n}" % (c, a, body) if r.random() < .5 else
                                 "namespace %s %s {\n%s\n}" % (a, c, body)))
        if r.random() < .12 and not inl:
            # nominating a namespace does not move its members
            chunks.append("namespace nom%d_ { using namespace %s; }" % (self.number(), me.qual))
            self.features.add("using-directive")
        return "\n".join(chunks)

    def scope_items(self, cpp, py, default, depth, n):
        r = self.rng
        out = []
        for _ in range(n):
            if self.budget <= 0 and out:
                break
            self.budget -= 1
            w = r.choice(["function", "function", "variable", "cls", "cls", "cls", "enum", "namespace",
                          "namespace", "deleted", "alias", "expose_here", "encourage", "alias0", "linkage"])
            if w == "function":
                t = self.function(cpp, py, default)
            elif w == "variable":
                t = self.variable(cpp, py, default)
            elif w == "cls":
                t = self.cls(cpp, py, default, depth)[0]
            elif w == "enum":
                t = self.enum(cpp, py, default)[0]
            elif w == "namespace":
                t = self.namespace(cpp, py, default, depth) if depth > 0 and not self.in_linkage \
                    else self.function(cpp, py, default)
            elif w == "deleted":
                t = self.deleted_function(cpp, py, default)
            elif w == "alias":
                t = self.alias(cpp, py) if self.aliases else ""
            elif w == "alias0":
                t = self.alias0(cpp, py)
            elif w == "expose_here":
                t = self.expose_here(cpp, py, depth) if self.aliases else ""
            elif w == "encourage":
                t = self.encourage(cpp, py, depth) if self.aliases and py is not None else ""
            else:
                self.features.add("linkage-block")
                before, self.in_linkage = self.in_linkage, cpp.qual != ""
                t = 'extern "C++" {\n%s\n}' % self.scope_items(cpp, py, default, depth, r.randrange(1, 3))
                self.in_linkage = before
            # everything hoisted so far has to precede the top-level text
            out.append(t)
        return "\n".join(x for x in out if x)

    def build(self):
        self.rootpy = Py("")
        top = Cpp("", "tu")
        chunks = []
        while self.budget > 0:
            t = self.scope_items(top, self.rootpy, False, self.maxdepth, 1)
            chunks += self.hoisted + [t]
            self.hoisted = []
            self.committed = len(self.targets)
        return "\n".join(chunks)

    def fill(self, h):
        h.add(self.build())
        exp = dict(self.expected)
        exp = {k: v for k, v in exp.items() if v != "module" or any(
            o.startswith(k + ".") and exp[o] != "module" for o in exp)}
        h.setup.append(VAL)
        h.probe("clean(api(m))", exp)
        items = sorted((k, exp[k]) for k in self.values)
        h.probe("vals(%r)" % (items,), {k: self.values[k] for k, _ in items})
        # nothing is defined twice
        fns = sorted(k for k, v in exp.items() if v in ("function", "method", "static"))
        h.probe("[k for k in %r if 'Overloaded function' in (_res(k).__doc__ or '')]" % (fns,), [])
        for a, t in self.identity:
            h.probe("_res(%r) is _res(%r)" % (a, t), True)
        for p, args, want in self.ctor_probes:
            h.probe("@try:\n  _res(%r)(%s)\n  _ = 'ok'\nexcept TypeError:\n  _ = 'no'" % (p, args), want)
        h.features += sorted(self.features)
        return exp


def world_case(rng, name, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in ("budget", "depth", "aliases", "only_in", "rename",
                                                    "explicit", "ops", "foreign")}
    if "module" in kw:
        extra["module"] = kw["module"]
    h = H(rng)
    w = World(rng, **extra)
    w.fill(h)
    return h.case(name, **kw)
