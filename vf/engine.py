"""Case engine: header -> instrumented tool -> compiler -> import -> probes."""
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from . import build

HERE = os.path.dirname(os.path.abspath(__file__))
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:allow_user_poisoning=0:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1:halt_on_error=1",
}
BASE_ENV = {"PATH": "/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8",
            "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
TIMEOUT = 120
SAN_MARKS = ("ERROR: AddressSanitizer", "runtime error:", "AddressSanitizer:DEADLYSIGNAL",
             "Assertion `", "LLVM ERROR", "UNREACHABLE executed", "PLEASE submit a bug report",
             "UndefinedBehaviorSanitizer")


class Harness(Exception):
    """The check itself is broken or the environment is: exit status 2."""


class Inconclusive(Exception):
    pass


class Exc:
    """Expected: an exception whose type is one of names (any if empty)."""

    def __init__(self, *names):
        self.names = names

    def __repr__(self):
        return "raises %s" % ("/".join(self.names) or "an exception")

    def matches(self, v):
        return isinstance(v, dict) and "!" in v and (not self.names or v["!"] in self.names)


class Pred:
    def __init__(self, text, f):
        self.text, self.f = text, f

    def __repr__(self):
        return self.text

    def matches(self, v):
        try:
            return bool(self.f(v))
        except Exception:
            return False


def F(x):
    return {"f": repr(float(x))}


def matches(expected, v):
    if isinstance(expected, (Exc, Pred)):
        return expected.matches(v)
    if isinstance(expected, tuple):
        expected = list(expected)
    if isinstance(expected, list) and isinstance(v, list):
        return len(expected) == len(v) and all(matches(a, b) for a, b in zip(expected, v))
    if isinstance(expected, float):
        return v == F(expected)
    if isinstance(expected, dict) and isinstance(v, dict):
        return set(expected) == set(v) and all(matches(expected[k], v[k]) for k in expected)
    return type(expected) is type(v) and expected == v


class Case:
    """One generated header and what has to be observed for it."""

    def __init__(self, name, header, probes=(), module=None, files=None, tool_args=(),
                 cc=(), setup=(), expect="ok", features=(), judge=None, n_out=1,
                 std="c++20", note="", link_srcs=(), import_first=(), known=None, main_name=None):
        self.name = name
        self.header = header
        self.probes = list(probes)        # (code, expected)
        self.module = module
        self.files = dict(files or {})    # further headers
        self.tool_args = list(tool_args)
        self.cc = list(cc)
        self.setup = list(setup)
        self.expect = expect              # ok | error | accept (not compiled) | any
        self.features = list(features)
        self.judge = judge                # f(obs) -> [problems]
        self.n_out = n_out
        self.std = std
        self.note = note
        self.import_first = list(import_first)  # sub-cases (other modules)
        self.known = known
        self.main_name = main_name        # file name of the header

    def digest(self):
        return hashlib.sha256((self.header + repr(sorted(self.files.items())) +
                               repr(self.tool_args) + repr(self.cc) + repr((self.n_out, self.main_name, self.module))
                               ).encode()).hexdigest()[:16]


class Engine:
    def __init__(self, need_bindings=True, jobs=build.JOBS, need_tool=True):
        self.jobs = jobs
        self.scratch = tempfile.mkdtemp(prefix="vf-")
        self.lock = threading.Lock()
        self.counters = {}
        self._n = 0
        self.build_stats = {}
        self.tool = None
        if not need_tool:
            return
        try:
            with ThreadPoolExecutor(2) as ex:
                t = ex.submit(build.tool)
                p = ex.submit(build.binding_pch) if need_bindings else None
                self.tool, self.build_stats = t.result()
                if p:
                    self.pch, self.pch_o, self.mod_flags = p.result()
        except build.BuildError as e:
            raise Harness("build failed: %s" % e)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def count(self, key, n=1):
        with self.lock:
            self.counters[key] = self.counters.get(key, 0) + n

    def workdir(self):
        with self.lock:
            self._n += 1
            d = os.path.join(self.scratch, "w%06d" % self._n)
        os.makedirs(d)
        return d

    # -- steps ---------------------------------------------------------------
    def run(self, cmd, cwd=None, env=None, timeout=TIMEOUT, stdin=None):
        e = dict(BASE_ENV)
        e.update(SAN_ENV)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            return None, b"", b"timeout"
        return p.returncode, out, err

    def run_tool(self, args, cwd=None, env=None, timeout=TIMEOUT):
        self.count("tool_runs")
        rc, out, err = self.run([self.tool] + args, cwd=cwd, env=env, timeout=timeout)
        return rc, out.decode(errors="replace"), err.decode(errors="replace")

    @staticmethod
    def sanitizer_report(rc, err):
        """A non-empty string if the run shows a crash or sanitizer report."""
        if rc is None:
            return ""
        for mark in SAN_MARKS:
            if mark in err:
                i = err.index(mark)
                return err[max(0, i - 200):i + 1500]
        if rc == 77 or rc < 0 or rc >= 128:
            return "terminated abnormally (status %s): %s" % (rc, err[-800:])
        return ""

    def write_files(self, case, d):
        main = os.path.join(d, case.main_name or (case.module or "m") + ".h")
        for rel, text in case.files.items():
            p = os.path.join(d, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(text)
        with open(main, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(case.header)
        return main

    def tool_cmd(self, case, main, outs):
        cmd = list(case.tool_args)
        for o in outs:
            cmd += ["-o", o]
        cmd += [main, "--", "-I" + os.path.dirname(main), "-I" + build.REPO + "/public",
                "-I" + build.PYINC, "-std=" + case.std] + case.cc
        return cmd

    def observe(self, case, keep=None):
        """Run the case completely; returns an observation dict."""
        d = keep or self.workdir()
        try:
            return self._observe(case, d)
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)

    def _build_module(self, case, d, obs):
        main = self.write_files(case, d)
        mod = case.module or "m"
        outs = [os.path.join(d, "%s-%d.cpp" % (mod, i)) for i in range(case.n_out)]
        rc, out, err = self.run_tool(self.tool_cmd(case, main, outs), cwd=d)
        obs.update(rc=rc, err=err, out=out, main=main)
        obs["san"] = self.sanitizer_report(rc, err)
        if rc is None:
            obs["timeout"] = "tool"
            return False
        obs["gen"] = {os.path.basename(o): open(o, encoding="utf-8", errors="replace").read()
                      for o in outs if os.path.exists(o)}
        if (rc != 0 and case.expect == "ok" or case.expect in ("error", "accept") and case.note != "broken") and not obs["san"]:
            hrc, _, herr = self.run([build.CLANG, "-I" + d, "-I" + build.REPO + "/public", "-I" + build.PYINC, "-w",
                                     "-std=" + case.std] + case.cc + ["-x", "c++", "-fsyntax-only", main], cwd=d)
            if hrc != 0:
                raise Harness("case %s: header does not compile: %s\n%s" % (
                    case.name, herr.decode(errors="replace")[:1500], case.header))
        if obs["san"] or rc != 0 or case.expect in ("error", "accept"):
            return False
        if len(obs["gen"]) != len(outs):
            obs["missing"] = "exit status 0, but output files are missing"
            return False
        objs = []
        for o in outs:
            flags = [f if not f.startswith("-std=") else "-std=" + case.std for f in self.mod_flags]
            pch = ["-include-pch", self.pch] if case.std == "c++20" and not case.cc else []
            cxx = getattr(case, "compiler", None)
            if cxx:
                pch = []
                flags = [f for f in flags if f not in ("-fpch-instantiate-templates", "-fpch-codegen") and not f.startswith("-fsanitize")]
            cmd = [cxx or build.CLANG] + flags + ["-I" + d] + case.cc + pch + ["-c", o, "-o", o + ".o"]
            self.count("compiles")
            crc, cout, cerr = self.run(cmd, cwd=d, timeout=300)
            if crc is None:
                obs["timeout"] = "compiler"
                return False
            if crc < 0 or crc >= 128 or b"No space left" in cerr:
                raise Inconclusive("compiler died: %r" % cerr[-300:])
            if crc != 0:
                # Is it the header itself?
                hrc, _, herr = self.run([cxx or build.CLANG] + flags + ["-I" + d] + case.cc + pch +
                                        ["-x", "c++", "-fsyntax-only", main], cwd=d, timeout=300)
                if hrc != 0:
                    raise Harness("case %s: header does not compile: %s\n%s" % (
                        case.name, herr.decode(errors="replace")[:1500], case.header))
                obs["compile_error"] = cerr.decode(errors="replace")[:2500]
                return False
            objs.append(o + ".o")
        so = os.path.join(d, mod + ".so")
        lrc, _, lerr = self.run([build.CLANG, "-shared"] + objs + [self.pch_o, "-o", so], cwd=d, timeout=300)
        if lrc is None or lrc < 0 or b"No space left" in lerr:
            raise Inconclusive("linker died: %r" % lerr[-300:])
        if lrc != 0:
            obs["compile_error"] = "link: " + lerr.decode(errors="replace")[:2500]
            return False
        return True

    def _observe(self, case, d):
        obs = {"case": case.name}
        for i, first in enumerate(case.import_first):
            sub = {}
            ok = self._build_module(first, d, sub)
            obs.setdefault("first", []).append(sub)
            if not ok:
                obs.update({k: v for k, v in sub.items() if k in
                            ("rc", "err", "out", "san", "timeout", "missing", "compile_error")})
                obs.setdefault("gen", {})
                return obs
        if not self._build_module(case, d, obs):
            return obs
        mod = case.module or "m"
        modules = [c.module for c in case.import_first] + [mod]
        job = {"paths": [d], "modules": modules, "setup": case.setup,
               "probes": [[str(i), p[0]] for i, p in enumerate(case.probes)]}
        jp, rp = os.path.join(d, "job.json"), os.path.join(d, "result.json")
        json.dump(job, open(jp, "w"))
        self.count("imports")
        prc, pout, perr = self.run([build.PYTHON, "-S", os.path.join(HERE, "observe.py"), jp, rp],
                                   cwd=d, timeout=TIMEOUT)
        if prc is None:
            obs["timeout"] = "python"
            return obs
        try:
            res = json.load(open(rp))
        except (OSError, ValueError):
            res = {"import": {"!": "crash", "msg": perr.decode(errors="replace")[-800:]}, "probes": {}}
        if prc != 0:
            res["py_crash"] = "python ended with status %s: %s" % (prc, perr.decode(errors="replace")[-800:])
        obs["py"] = res
        obs["pyout"] = pout.decode(errors="replace")
        return obs

    # -- judging -------------------------------------------------------------
    def judge(self, case, obs):
        """List of problems (strings); empty if the case behaved as expected."""
        problems = []
        if obs.get("timeout"):
            return ["no answer from %s within the time limit" % obs["timeout"]]
        if obs.get("san"):
            return ["sanitizer/crash report from the tool: " + obs["san"]]
        if case.expect == "error":
            if obs["rc"] == 0:
                problems.append("the tool accepted a header it has to reject")
            if obs["gen"]:
                problems.append("output left behind after an error: %s" % sorted(obs["gen"]))
        elif case.expect == "accept":
            if obs["rc"] != 0:
                problems.append("the tool rejected a valid header (status %s): %s" % (obs["rc"], obs["err"][:1500]))
            elif len(obs["gen"]) != case.n_out:
                problems.append("exit status 0, but output files are missing")
        elif case.expect == "ok":
            if obs["rc"] != 0:
                return ["the tool rejected a valid header (status %s): %s" % (obs["rc"], obs["err"][:1500])]
            if obs.get("missing"):
                return [obs["missing"]]
            if obs.get("compile_error"):
                return ["generated code does not compile: " + obs["compile_error"]]
            py = obs.get("py")
            if py is None:
                return ["no observation of the module"]
            if py["import"] != "ok":
                return ["import failed: %s" % json.dumps(py["import"])]
            if py.get("py_crash"):
                problems.append(py["py_crash"])
            for i, p in enumerate(case.probes):
                v = py["probes"].get(str(i), {"!": "not evaluated"})
                self.count("observations")
                if not matches(p[1], v):
                    problems.append("%s\n  expected %s\n  observed %s" % (
                        p[0] if len(p) < 3 else "%s   (%s)" % (p[0], p[2]),
                        p[1] if isinstance(p[1], (Exc, Pred)) else json.dumps(p[1], default=repr),
                        json.dumps(v)))
        if case.judge is not None:
            problems += case.judge(obs)
        return problems


def rng_for(pid, seed, tier):
    return random.Random("%s/%s/%s" % (pid, seed, tier))
