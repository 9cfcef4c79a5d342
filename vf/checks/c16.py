"""Output files are complete or untouched, and the exit status tells which."""
import hashlib
import os
import random
import resource
import shutil
import signal
import subprocess
import time

from .. import build
from ..check import FuncTask, Result
from ..engine import BASE_ENV, SAN_ENV
from ..gen import H, PRE
from ..world import World
from . import c11, c15

RULE = ("each case is a header, a list of outputs (absent, with old content, regular files, stdout) and a fault: an error in the header, "
        "annotations, pragmas, options or found while generating; an output that cannot be written; or, with a preloaded shim that numbers "
        "every call touching the output directory, call k failing (EIO, ENOSPC, EACCES, EINTR), being cut short, being interrupted by a signal "
        "or the process killed before or after it, for all k; a file size limit at a random offset; a kill at a random time. Afterwards the "
        "directory is compared with the one before and with that of an undisturbed run. distinct by header, outputs and fault; non-trivial "
        "if the fault happened (shim log or exit status)")
NEED_BINDINGS = False
OLD = b"// previous content\n" * 2000


def faults_so():
    src = os.path.join(build.VERIF, "harness", "faults.c")
    def make(tmp):
        r = build.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src])
        if r.returncode != 0:
            raise build.BuildError(r.stderr.decode(errors="replace"))
    return build.cached("faults.so", build.sha(build.read(src)), make)[0]


def run(eng, args, cwd, env=None, limits=None, stdout=subprocess.PIPE, kill_after=None, tool=None):
    e = dict(BASE_ENV)
    e.update(SAN_ENV)
    e.update(env or {})

    def pre():
        os.setsid()
        for sig in (signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE):
            signal.signal(sig, signal.SIG_DFL)   # (ignored ones are inherited)
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        if limits:
            size, ignore = limits
            if ignore:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            else:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    eng.count("tool_runs")
    p = subprocess.Popen([tool or eng.tool] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE,
                         preexec_fn=pre)
    if kill_after is not None:
        time.sleep(kill_after)
        p.kill()
    try:
        out, err = p.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, b"", "timeout"
    return p.returncode, out, err.decode(errors="replace")


VALID_KINDS = ["aliases", "bases", "operators", "instantiations", "properties", "namespaces", "expose_here", "overloads", "inline", "manual", "warnings"]


def valid_header(rng):
    x = rng.random()
    if x < .1:
        return "empty", PRE, {}
    if x < .6:
        k = rng.choice(VALID_KINDS)
        return k, c15.stress(rng, k)[1], {}
    h = H(rng)
    World(rng, budget=rng.randrange(5, 50), depth=4).fill(h)
    return "world", h.header(), {}


BROKEN = {
    "syntax": "struct {{{ ;;; )(",
    "unterminated": "namespace n { struct S {",
    "missing_include": '#include "does-not-exist.h"',
    "error_directive": "#error nope",
    "undeclared": "GENPYBIND(visible) Unknown f();",
    "redefinition": "struct R {}; struct R {};",
    "static_assert": "static_assert(sizeof(int) == 77, \"no\");",
    "template": "template <typename T> struct GENPYBIND(visible) T1 { typename T::nothing x; }; template struct T1<int>;",
    "expose_here_cycle": "struct GENPYBIND(visible) CA;\nstruct GENPYBIND(visible) CB { using X GENPYBIND(expose_here) = CA; };\nstruct CA { using Y GENPYBIND(expose_here) = CB; };",
    "base_cycle": "struct GENPYBIND(visible) BA {};\nstruct GENPYBIND(visible) BB : BA { using X GENPYBIND(expose_here) = BA; };",
    "base_cycle_in_module": "namespace bc GENPYBIND(module) { struct GENPYBIND(visible) BA {}; struct GENPYBIND(visible) BM : BA { struct GENPYBIND(visible) In { using X GENPYBIND(expose_here) = BA; }; }; }",
    "pragma": "#pragma genpybind nonsense",
    "pragma_include": "#pragma genpybind include(",
    "pragma_missing": "#pragma genpybind include <does-not-exist.h>",
    "annotation": "GENPYBIND(frobnicate) void f();",
    "annotation_syntax": "GENPYBIND(visible(((1) void f();",
    "annotation_kind": "GENPYBIND(visible, getter_for(x)) void f();",
    "twice": "struct GENPYBIND(visible) TW {};\nnamespace x1 { typedef TW A GENPYBIND(expose_here); }\nnamespace x2 { typedef TW B GENPYBIND(expose_here); }",
    "conflict": "namespace nc GENPYBIND(module) { struct GENPYBIND(visible) S {}; }\nnamespace nc GENPYBIND(module(other)) { struct GENPYBIND(visible) R {}; }",
    "property_twice": "struct GENPYBIND(visible) PT { int a() const GENPYBIND(getter_for(x)); int b() const GENPYBIND(getter_for(x)); };",
}
BROKEN.pop("conflict")


def broken_header(rng, kind=None):
    _, text, files = valid_header(rng)
    if kind == "annotations":
        b = c11.Builder(rng)
        for _ in range(rng.randrange(2, 12)):
            b.decl(rng.random() < .5)
        b.decl(True)
        while not b.bad:
            b.decl(True)
        c = b.case("x")
        return c.header, dict(c.files)
    bad = BROKEN[kind] + "\n"
    if kind == "annotation_syntax":
        bad = '__attribute__((annotate("◊visible(((1"))) void f();\n'
    if kind in ("unterminated",) or rng.random() < .5:
        return text + bad, files
    return PRE + bad + text.replace(PRE, "", 1), files


class Scene:
    """A directory with a header and an output directory in a known state."""

    def __init__(self, eng, rng, text, files, n_out, states=None):
        self.eng = eng
        self.d = eng.workdir()
        self.main = os.path.join(self.d, "m.h")
        for rel, t in files.items():
            open(os.path.join(self.d, rel), "w").write(t)
        open(self.main, "w").write(text)
        self.out = os.path.join(self.d, "out")
        os.mkdir(self.out)
        self.states = states or [rng.choice(["absent", "old", "longer", "complete"]) for _ in range(n_out)]
        names = ["bindings-%d.cpp" % i for i in range(n_out)]
        if rng.random() < .3:
            names = ["%s.%s" % (rng.choice("abxyz") * (i + 1), rng.choice(["cpp", "cc", "x", "generated.cpp"])) for i in range(n_out)]
        self.outs = [os.path.join(self.out, n) for n in names]
        self.complete = None

    def args(self, opts=(), outs=None, cc=()):
        a = list(opts)
        for o in self.outs if outs is None else outs:
            a += ["-o", o]
        return a + [self.main, "--", "-I" + self.d, "-I" + build.REPO + "/public", "-std=c++20"] + list(cc)

    def reset(self):
        shutil.rmtree(self.out)
        os.mkdir(self.out)
        self.old = {}
        for o, s in zip(self.outs, self.states):
            if s == "absent":
                self.old[o] = None
            else:
                c = OLD if s == "longer" else b"old\n"
                if s == "complete" and self.complete:
                    c = self.complete[o][:-3]
                self.old[o] = c
                open(o, "wb").write(c)
        open(os.path.join(self.out, "neighbour.cpp"), "w").write("neighbour\n")

    def content(self):
        return {o: open(o, "rb").read() if os.path.isfile(o) else None for o in self.outs}

    def strays(self):
        keep = set(self.outs) | {os.path.join(self.out, "neighbour.cpp")}
        found = []
        for root, dirs, names in os.walk(self.d):
            for n in names + dirs:
                p = os.path.join(root, n)
                if p not in keep and root.startswith(self.out):
                    found.append(os.path.relpath(p, self.d))
        return sorted(found)

    def neighbour_ok(self):
        p = os.path.join(self.out, "neighbour.cpp")
        return os.path.exists(p) and open(p).read() == "neighbour\n"

    def baseline(self, cc=()):
        """Contents after an undisturbed run; None and a problem if it fails."""
        self.reset()
        rc, _, err = run(self.eng, self.args(cc=cc), self.d)
        if rc != 0:
            return "undisturbed run on a valid header fails (status %s): %s" % (rc, err[:800])
        got = self.content()
        missing = [os.path.basename(o) for o in self.outs if got[o] is None]
        if missing:
            return "exit status 0, but outputs are missing: %s" % missing
        for o in self.outs:
            if not got[o].startswith(b"#include ") or got[o] == self.old[o] or not got[o].endswith(b"\n"):
                return "exit status 0, but %s does not hold generated code: %r" % (os.path.basename(o), got[o][:80])
        if self.strays():
            return "exit status 0, but other files were left behind: %s" % self.strays()
        rc, out, err = run(self.eng, self.args(outs=["-"], cc=cc), self.d)
        if rc != 0 or len(self.outs) == 1 and out != got[self.outs[0]]:
            return "the output file differs from what is written to stdout (status %s): %r..." % (rc, out[-200:])
        self.complete = got
        return None

    def check(self, label, rc, err, temp_ok=False, must_fail=None, all_or_nothing=False):
        """Problems with the state left behind."""
        p = []
        got = self.content()
        whole = [got[o] is not None and self.complete is not None and got[o] == self.complete[o] for o in self.outs]
        for o, w in zip(self.outs, whole):
            # After an error the compiler removes outputs it would have replaced.
            gone = got[o] is None and rc != 0
            if not w and not gone and got[o] != self.old[o]:
                p.append("%s: %s neither keeps its previous content nor holds the complete code (%s bytes of %s, was %s)" % (
                    label, os.path.basename(o), None if got[o] is None else len(got[o]),
                    len(self.complete[o]) if self.complete else "none", None if self.old[o] is None else len(self.old[o])))
            if all_or_nothing and not gone and got[o] != self.old[o]:
                p.append("%s: %s was changed although the run failed" % (label, os.path.basename(o)))
        if rc == 0 and not all(whole):
            p.append("%s: exit status 0, but %s incomplete" % (label, [os.path.basename(o) for o, w in zip(self.outs, whole) if not w]))
        if must_fail and rc == 0:
            p.append("%s: exit status 0 although %s" % (label, must_fail))
        if not temp_ok and self.strays():
            p.append("%s: files left behind: %s" % (label, self.strays()))
        if not self.neighbour_ok():
            p.append("%s: another file in the directory was changed" % label)
        if rc == 77 or "AddressSanitizer" in err or "runtime error:" in err or "Assertion `" in err:
            p.append("%s: crash: %s" % (label, err[-600:]))
        return p

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def error_task(rng, i):
    kinds = sorted(BROKEN) + ["annotations"] * 6
    kind = kinds[i % len(kinds)]
    n_out = rng.choice([1, 1, 2, 3, 5])
    text, files = broken_header(rng, kind)
    opts = rng.choice([[], [], ["--verbose"], ["--module-name=x"], ["--dump-graph=visibility"]])
    cc = ["-ferror-limit=0"] if rng.random() < .3 else []
    if kind == "pragma_missing" or rng.random() < .1:
        cc = cc + ["-Wno-everything"]
    xfail = rng.random() < .15
    s = rng.random()

    def f(eng):
        sc = Scene(eng, random.Random(s), text, files, n_out)
        try:
            sc.reset()
            rc, out, err = run(eng, sc.args(opts + (["--xfail"] if xfail else []), cc=cc), sc.d)
            p = []
            if xfail and rc is not None:
                if rc not in (0, 1):
                    p.append("status %s with --xfail" % rc)
                rc = 1 if rc == 0 else 0
            if rc is None:
                p.append("no answer within the time limit")
            p += sc.check("error in the header (%s)" % kind, rc, err, must_fail="the header has an error", all_or_nothing=True)
            if rc is not None and (rc < 0 or rc > 2):
                p.append("status %s instead of an ordinary failure: %s" % (rc, err[-500:]))
            if not err.strip():
                p.append("nothing reported")
            return Result(p, "e%s%s" % (hashlib.sha256(text.encode()).hexdigest()[:12], n_out), rc != 0, ["error/" + kind, "outputs/%d" % n_out],
                          {"case": kind, "header": text[-600:], "status": rc, "states": sc.states})
        finally:
            sc.close()
    return FuncTask("error/%d %s" % (i, kind), f, text)


UNWRITABLE = ["no_directory", "is_directory", "below_file", "long_name", "dev_full", "stdout_full", "stdout_closed", "relative", "empty", "dangling_dir", "duplicate", "nofile", "bad_option", "no_header", "two_headers"]


def unwritable_task(rng, i):
    kind = UNWRITABLE[i % len(UNWRITABLE)]
    hk, text, files = valid_header(rng)
    n_out = rng.choice([1, 2, 3])
    pos = rng.randrange(n_out)
    s = rng.random()

    def f(eng):
        sc = Scene(eng, random.Random(s), text, files, n_out)
        try:
            b = sc.baseline()
            if b:
                return Result([b], "u", True)
            sc.reset()
            outs = list(sc.outs)
            stdout = subprocess.PIPE
            opts = []
            bad = {"no_directory": os.path.join(sc.out, "nope", "x.cpp"), "is_directory": os.path.join(sc.out, "dir"), "below_file": os.path.join(sc.out, "neighbour.cpp", "x.cpp"),
                   "long_name": os.path.join(sc.out, "y" * 300 + ".cpp"), "dev_full": "/dev/full", "stdout_full": "-", "stdout_closed": "-", "relative": "relative.cpp", "empty": "",
                   "dangling_dir": os.path.join(sc.out, "dangling", "x.cpp"), "duplicate": outs[pos]}.get(kind)
            if kind == "stdout_closed":
                outs = ["-"]  # (the first file opened would become stdout)
            elif bad is not None:
                outs.insert(pos, bad)
            args = sc.args(opts, outs)
            pre = ()
            if kind == "is_directory":
                os.mkdir(bad)
            if kind == "dangling_dir":
                os.symlink(os.path.join(sc.out, "nowhere"), os.path.join(sc.out, "dangling"))
            if kind == "bad_option":
                args = ["--no-such-option"] + args
            if kind == "no_header":
                args = [a if a != sc.main else os.path.join(sc.d, "missing.h") for a in args]
            if kind == "two_headers":
                args = [sc.main] + args
            before = sc.strays()
            full = None
            try:
                if kind == "stdout_full":
                    full = stdout = open("/dev/full", "w")
                if kind == "stdout_closed":
                    args = ["-c", 'exec "$0" "$@" >&-', eng.tool] + args
                if kind == "nofile":
                    args = ["-c", 'ulimit -n 9; exec "$0" "$@"', eng.tool] + args
                rc, out, err = run(eng, args, sc.d, stdout=stdout, tool="/bin/sh" if kind in ("stdout_closed", "nofile") else None)
            finally:
                if full:
                    full.close()
            must = None if kind in ("nofile", "two_headers") else "%s cannot be written" % kind
            p = []
            after = [x for x in sc.strays() if x not in before]
            if kind == "is_directory" and os.path.isdir(bad) and os.listdir(bad):
                p.append("files left in %s" % bad)
            if after:
                p.append("%s: files left behind: %s" % (kind, after))
            p += sc.check(kind, rc, err, temp_ok=True, must_fail=must, all_or_nothing=must is not None)
            if rc is not None and (rc < 0 or rc > 127):
                p.append("%s: status %s instead of an ordinary failure: %s" % (kind, rc, err[-500:]))
            return Result(p, "u%s%s%d" % (kind, hashlib.sha256(text.encode()).hexdigest()[:12], n_out), rc != 0 or must is None, ["unwritable/" + kind, "outputs/%d" % n_out],
                          {"case": kind, "status": rc, "stderr": err[:300]})
        finally:
            sc.close()
    return FuncTask("unwritable/%d %s" % (i, kind), f, text)


ACTIONS = ["kill", "killafter", "e5", "e28", "e13", "e4", "short", "one", "E28", "E5", "term", "int"]


def fault_task(rng, i, limit):
    hk, text, files = valid_header(rng)
    n_out = rng.choice([1, 1, 2, 3, 4])
    s = rng.random()
    pick = random.Random(rng.random())

    def f(eng):
        r = random.Random(s)
        sc = Scene(eng, r, text, files, n_out)
        log = os.path.join(sc.d, "log")
        so = faults_so()
        try:
            b = sc.baseline()
            if b:
                return Result([b], "f", True)

            def once(k, act):
                sc.reset()
                if os.path.exists(log):
                    os.unlink(log)
                env = {"LD_PRELOAD": so, "VF_FAULT_DIR": sc.out, "VF_FAULT_LOG": log, "VF_FAULT_AT": str(k), "VF_FAULT_ACT": act}
                rc, _, err = run(eng, sc.args(), sc.d, env=env)
                ev = [l.split() for l in open(log)] if os.path.exists(log) else []
                return rc, err, ev
            rc, err, events = once(0, "none")
            problems = sc.check("observed run", rc, err)
            plan = [(k, a) for k in range(1, len(events) + 1) for a in ACTIONS
                    if (a in ("short", "one")) <= (events[k - 1][1] == "write")]
            pick.shuffle(plan)
            hit = 0
            for k, act in plan[:limit]:
                rc, err, ev = once(k, act)
                if rc is None:
                    problems.append("fault %s at call %d: no answer" % (act, k))
                    continue
                eng.count("faults")
                what = events[k - 1][1]
                hit += len(ev) >= k
                label = "%s at call %d (%s)" % (act, k, what)
                cleanup = [e for e in ev if e[1] in ("unlink", "remove") and (int(e[0]) == k or act[0] == "E" and int(e[0]) >= k)]
                # A temporary file may stay if the process was killed, if it could not be removed, and if it
                # could not be renamed but the content was delivered otherwise.
                temp_ok = act in ("kill", "killafter") or act[0] == "E" or bool(cleanup) or rc == 0 and what in ("rename", "link") or act in ("term", "int") and what == "open"
                problems += sc.check(label, rc, err, temp_ok=temp_ok)
                # (close failing after everything was delivered is no reason for anything in particular)
                if act in ("kill", "killafter", "term", "int") and rc == 0 and len(ev) >= k:
                    problems.append("%s: exit status 0" % label)
            eng.count("output_calls_seen", len(events))
            return Result(problems[:6], "f%s%d" % (hashlib.sha256(text.encode()).hexdigest()[:12], n_out), hit > 0, ["fault/" + hk, "outputs/%d" % n_out] + ["call/" + e[1] for e in events],
                          {"case": hk, "output calls": [" ".join(e[:2]) for e in events][:12], "faults": hit, "states": sc.states}, evals=1 + hit)
        finally:
            sc.close()
    return FuncTask("fault/%d %s" % (i, hk), f, text)


def limit_task(rng, i):
    """File size limits (the kernel stops the tool at a byte offset) and kills at random times."""
    hk, text, files = valid_header(rng)
    n_out = rng.choice([1, 1, 2, 3])
    s = rng.random()

    def f(eng):
        r = random.Random(s)
        sc = Scene(eng, r, text, files, n_out)
        try:
            b = sc.baseline()
            if b:
                return Result([b], "l", True)
            sizes = [len(c) for c in sc.complete.values()]
            problems = []
            t0 = time.time()
            sc.reset()
            run(eng, sc.args(), sc.d)
            dt = time.time() - t0
            n = 0
            for _ in range(4):
                size = r.choice([0, 1, r.randrange(max(sizes)), max(sizes) - 1, min(sizes) - 1, max(sizes)])
                ignore = r.random() < .5
                sc.reset()
                rc, _, err = run(eng, sc.args(), sc.d, limits=(size, ignore))
                short = [x for x in sizes if x > size]
                problems += sc.check("file size limit %d%s" % (size, " (as error)" if ignore else ""), rc, err, temp_ok=not ignore,
                                     must_fail="an output could not be written" if short else None)
                n += 1
                eng.count("limits")
            for _ in range(3):
                sc.reset()
                rc, _, err = run(eng, sc.args(), sc.d, kill_after=r.uniform(0, dt * 1.2))
                problems += sc.check("kill", rc, err, temp_ok=True)
                n += 1
                eng.count("kills")
            return Result(problems[:6], "l%s%d" % (hashlib.sha256(text.encode()).hexdigest()[:12], n_out), True, ["limit/" + hk], {"case": hk, "sizes": sizes}, evals=n)
        finally:
            sc.close()
    return FuncTask("limit/%d %s" % (i, hk), f, text)


def tasks(rng, tier):
    faults_so()
    quick = tier == "quick"
    out = []
    for i in range(26 if quick else 400):
        out.append(fault_task(rng, i, 40 if quick else 10**6))
    out += [error_task(rng, i) for i in range(150 if quick else 4000)]
    out += [unwritable_task(rng, i) for i in range(45 if quick else 900)]
    out += [limit_task(rng, i) for i in range(24 if quick else 400)]
    return out
