"""Builds the instrumented tool, the binding PCH and the in-process harnesses
from /repo's current working tree.  Results are cached in /verif/build, keyed
by the content of everything that goes into them."""
import glob
import hashlib
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18"
GXX = "/usr/bin/g++"
LLVM = "/usr/lib/llvm-18"
PYINC = "/usr/include/python3.12"
PYTHON = "/usr/bin/python3"
JOBS = 8

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr",
       "-fno-sanitize-recover=all"]
TOOL_FLAGS = ["-DLLVM_VERSION_MAJOR=18", "-I" + REPO + "/include",
              "-isystem", LLVM + "/include", "-g1", "-O1", "-std=c++20",
              "-fno-exceptions", "-funwind-tables",
              "-fno-omit-frame-pointer", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS",
              "-w"] + SAN
TOOL_LIBS = [LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.18.1"]
# Slowest files first, to keep all cores busy.
SLOW = ["instantiate_annotated_templates", "decl_context_graph_builder",
        "instantiate_default_arguments", "tool", "annotated_decl", "expose",
        "visible_decls", "inspect_graph"]

MOD_FLAGS = ["-I" + REPO + "/public", "-I" + PYINC, "-std=c++20", "-fPIC",
             "-fvisibility=hidden", "-O0", "-w"]


class BuildError(Exception):
    """The tree does not build (an error of the check, not a violation)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def headers_hash(*dirs):
    files = []
    for d in dirs:
        for root, _, names in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, n) for n in names if d != "src" or not n.endswith(".cpp")]
    files.sort()
    return sha(*[x for f in files for x in (f, read(f))])


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, **kw)


def cached(name, key, make):
    """Return CACHE/name-key, creating it by make(tmp_path) if missing."""
    os.makedirs(CACHE, exist_ok=True)
    path = os.path.join(CACHE, "%s-%s" % (key, name))
    if os.path.exists(path):
        return path, True
    tmp = tempfile.mktemp(prefix="tmp-", suffix="-" + name, dir=CACHE)
    try:
        make(tmp)
        os.replace(tmp, path)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return path, False


def _compile(compiler, flags, src, out):
    r = run([compiler] + flags + ["-c", src, "-o", out])
    if r.returncode != 0:
        raise BuildError("%s: %s" % (src, r.stderr.decode(errors="replace")[-3000:]))


def repo_sources():
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))

    def rank(s):
        stem = os.path.basename(s)[:-4]
        return SLOW.index(stem) if stem in SLOW else len(SLOW)
    return sorted(srcs, key=lambda s: (rank(s), s))


def objects(srcs, flags, tag, compiler=CLANG):
    hh = headers_hash("include", "public", "src")
    stats = {"compiled": 0, "reused": 0}

    def one(src):
        key = sha(tag, compiler, *flags, hh, src, read(src))
        path, hit = cached(os.path.basename(src) + ".o", key,
                           lambda tmp: _compile(compiler, flags, src, tmp))
        stats["reused" if hit else "compiled"] += 1
        return path
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, srcs))
    return objs, stats


def link(name, objs, flags, libs, compiler=CLANG):
    key = sha(compiler, *objs, *flags, *libs)

    def make(tmp):
        r = run([compiler] + flags + objs + libs + ["-o", tmp])
        if r.returncode != 0:
            raise BuildError("link %s: %s" % (name, r.stderr.decode(errors="replace")[-3000:]))
    return cached(name, key, make)[0]


def tool():
    """The sanitized genpybind-tool."""
    t = time.time()
    objs, stats = objects(repo_sources(), TOOL_FLAGS, "tool")
    path = link("genpybind-tool", objs, SAN[:1], TOOL_LIBS)
    stats["seconds"] = round(time.time() - t, 1)
    return path, stats


def shuffled_tool():
    """The tool with an operator new that returns memory in random order."""
    objs, _ = objects(repo_sources(), TOOL_FLAGS, "tool")
    mine, _ = objects([os.path.join(VERIF, "harness", "shuffle.cpp")], TOOL_FLAGS, "harness")
    return link("genpybind-tool-shuffled", mine + objs, SAN[:1], TOOL_LIBS)


PCH_TEXT = """#include <sstream>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include <genpybind/genpybind.h>
#include <genpybind/binding-helpers.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
"""


def binding_pch(std="c++20"):
    """(pch, object) used to compile generated bindings quickly."""
    flags = [f if not f.startswith("-std=") else "-std=" + std for f in MOD_FLAGS]
    hh = headers_hash("public")
    os.makedirs(CACHE, exist_ok=True)
    hdr = os.path.join(CACHE, "bindings-%s.h" % sha(PCH_TEXT))
    if not os.path.exists(hdr):
        with open(hdr + ".%d" % os.getpid(), "w") as f:
            f.write(PCH_TEXT)
        os.replace(hdr + ".%d" % os.getpid(), hdr)
    key = sha(hh, *flags, PCH_TEXT, "no-timestamp")

    def make(tmp):
        r = run([CLANG] + flags + ["-x", "c++-header", "-Xclang", "-fno-pch-timestamp", "-fpch-instantiate-templates",
                 "-fpch-codegen", hdr, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("pch: " + r.stderr.decode(errors="replace")[-3000:])
    pch, _ = cached("bindings.pch", key, make)

    def make_o(tmp):
        r = run([CLANG, "-fPIC", "-O0", "-c", pch, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("pch object: " + r.stderr.decode(errors="replace")[-3000:])
    obj, _ = cached("bindings.pch.o", sha(key, pch), make_o)
    return pch, obj, flags


def harness(name, sources, repo_srcs, extra_flags=(), libs=()):
    """An in-process harness: sources in /verif/harness + sources of /repo.

    Only the listed sources of the tree are needed; should they have come to
    depend on others, everything except the tool's main file is linked."""
    flags = TOOL_FLAGS + list(extra_flags)
    mine, stats = objects([os.path.join(VERIF, "harness", s) for s in sources], flags, "harness")
    lflags = SAN[:1] + [f for f in extra_flags if f.startswith("-fsanitize")]
    libs = TOOL_LIBS + list(libs)
    listed = [os.path.join(REPO, s) for s in repo_srcs]
    try:
        objs, st = objects([s for s in listed if os.path.exists(s)], flags, "tool")
        exe = link(name, mine + objs, lflags, libs)
    except BuildError:
        rest = [s for s in repo_sources() if b"int main(" not in read(s)]
        objs, st = objects(rest, flags, "tool")
        exe = link(name, mine + objs, lflags, libs)
    return exe, {k: stats[k] + st[k] for k in stats}


if __name__ == "__main__":
    t0 = time.time()
    print(tool(), round(time.time() - t0, 1))
    print(binding_pch(), round(time.time() - t0, 1))
    sys.exit(0)
