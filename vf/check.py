"""Driver: runs the check of one property.

usage: python3 -m vf.check PROPERTY   (VERIF_SEED, VERIF_TIER in the environment)
       python3 -m vf.check PROPERTY --show N    print generated case N
"""
import hashlib
import importlib
import json
import os
import re
import shutil
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor, as_completed

from . import build, engine
from .engine import Harness, Inconclusive

VERIF = build.VERIF
MAX_VIOLATIONS = 3


class Result:
    """Outcome of one task."""

    def __init__(self, problems=(), key=None, nontrivial=True, features=(), sample=None,
                 evals=1, distinct=None):
        self.problems = list(problems)
        self.key = key
        self.nontrivial = nontrivial
        self.features = list(features)
        self.sample = sample
        self.evals = evals        # executions behind this outcome
        self.distinct = distinct  # distinct non-trivial ones, if not one


class Task:
    """Something with an outcome; subclasses override attempt()."""
    name = "task"
    known = None

    def attempt(self, eng):
        raise NotImplementedError

    def replay(self, eng, d):
        pass


class CaseTask(Task):
    def __init__(self, case):
        self.case = case
        self.name = case.name
        self.known = case.known

    def attempt(self, eng):
        c = self.case
        obs = eng.observe(c)
        return Result(eng.judge(c, obs), c.digest(), bool(c.probes) or c.expect in ("error", "accept") or c.judge is not None,
                      c.features, {"case": c.name, "header": c.header[:3000],
                                   "observed": {p[0][:160]: (obs.get("py") or {}).get("probes", {}).get(str(i))
                                                for i, p in list(enumerate(c.probes))[:6]}})

    def replay(self, eng, d):
        c = self.case
        for sub in c.import_first:
            eng.write_files(sub, d)
        main = eng.write_files(c, d)
        outs = [os.path.join(d, "out-%d.cpp" % i) for i in range(c.n_out)]
        with open(os.path.join(d, "repro.sh"), "w") as f:
            f.write("#!/bin/sh\n# from a build of /repo; TOOL defaults to the sanitized one\n"
                    "TOOL=${TOOL:-%s}\n$TOOL %s\n" % (eng.tool, " ".join(
                        "'%s'" % a for a in eng.tool_cmd(c, main, outs))))
            f.write("# observed in Python after compiling and importing (setup, then probes):\n")
            for s in c.setup:
                f.write("".join("#   %s\n" % x for x in s.splitlines()))
            for p in c.probes:
                f.write("".join("#   %s\n" % x for x in p[0].splitlines()))


class FuncTask(Task):
    """attempt = f(eng) -> Result"""

    def __init__(self, name, f, replay_text="", known=None):
        self.name, self.f, self.text = name, f, replay_text
        self.known = known

    def attempt(self, eng):
        return self.f(eng)

    def replay(self, eng, d):
        if self.text:
            with open(os.path.join(d, "input.txt"), "w", errors="surrogateescape") as f:
                f.write(self.text)


def as_task(x):
    return CaseTask(x) if isinstance(x, engine.Case) else x


def run_task(task, eng):
    """(Result, confirmed, note)"""
    try:
        first = task.attempt(eng)
    except Inconclusive as e:
        try:
            first = task.attempt(eng)
        except Inconclusive as e2:
            return Result(key=task.name, nontrivial=False), False, "inconclusive: %s" % e2
    if not first.problems:
        return first, False, ""
    for _ in range(3):
        try:
            again = task.attempt(eng)
        except Inconclusive:
            continue
        if again.problems:
            return again, True, ""
    eng.count("unconfirmed")
    return first, False, "not reproducible: " + first.problems[0][:500]


def known_entries(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out[e["id"]] = e
    return out


def write_replay(pid, task, result, eng):
    h = hashlib.sha256((task.name + repr(result.key)).encode()).hexdigest()[:12]
    d = os.path.join(VERIF, "replays", pid, h)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "problems.txt"), "w", errors="replace") as f:
        f.write("property %s, case %s\n\n" % (pid, task.name))
        for p in result.problems:
            f.write(p + "\n\n")
    try:
        task.replay(eng, d)
    except Exception:
        traceback.print_exc()
    return d


def main(pid, argv):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("vf.checks." + pid.lower())
    rng = engine.rng_for(pid, seed, tier)
    if argv[:1] == ["--show"]:
        tasks = [as_task(t) for t in mod.tasks(rng, tier)]
        if len(argv) < 2:
            for i, t in enumerate(tasks):
                print(i, t.name)
            return 0
        t = tasks[int(argv[1])]
        print(t.name)
        if isinstance(t, CaseTask):
            for n, x in t.case.files.items():
                print("//", n)
                print(x)
            print(t.case.header)
            for p in t.case.probes:
                print(p)
        return 0
    eng = engine.Engine(need_bindings=getattr(mod, "NEED_BINDINGS", True), need_tool=getattr(mod, "NEED_TOOL", True))
    known = known_entries(pid)
    violations, notes, samples, features, keys = [], [], [], {}, set()
    evaluations = decided = inner_distinct = 0
    known_seen = set()
    harness_errors = []
    try:
        tasks = [as_task(t) for t in mod.tasks(rng, tier)]
        if argv[:1] == ["--only"]:
            tasks = [t for i, t in enumerate(tasks) if str(i) == argv[1] or argv[1] in t.name]
        only_known = [t for t in tasks if t.known]
        tasks = [t for t in tasks if not t.known]
        stop = threading.Event()

        def go(t):
            if stop.is_set():
                return t, None
            try:
                return t, run_task(t, eng)
            except Harness as e:
                return t, e
        with ThreadPoolExecutor(eng.jobs) as ex:
            futs = [ex.submit(go, t) for t in tasks + only_known]
            for fut in as_completed(futs):
                t, r = fut.result()
                if r is None:
                    continue
                if isinstance(r, Exception):
                    harness_errors.append("%s: %s" % (t.name, r))
                    continue
                res, confirmed, note = r
                evaluations += res.evals
                decided += 1
                inner_distinct = max(inner_distinct, res.distinct or 0)
                if note:
                    notes.append("%s: %s" % (t.name, note))
                for f in res.features:
                    features[f] = features.get(f, 0) + 1
                if res.nontrivial and res.key is not None:
                    keys.update(res.key if isinstance(res.key, (set, list)) else [res.key])
                if res.sample is not None and len(samples) < 3 and not res.problems:
                    samples.append(res.sample)
                if confirmed:
                    if t.known in known and all(re.search(known[t.known]["match"], x, re.S) for x in res.problems):
                        known_seen.add(t.known)
                        continue
                    if len(violations) >= MAX_VIOLATIONS:
                        continue
                    d = write_replay(pid, t, res, eng)
                    violations.append((t, res, d))
                    print("VIOLATION property=%s replay=%s" % (pid, d))
                    print("  " + res.problems[0][:800].replace("\n", "\n  "), flush=True)
                    if len(violations) >= MAX_VIOLATIONS:
                        stop.set()
    finally:
        eng.close()
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    cov = {"evaluations": evaluations, "distinct_nontrivial": max(len(keys), inner_distinct),
           "rule": mod.RULE, "samples": samples or ["(none)"],
           "observed": dict(sorted(eng.counters.items())),
           "features": dict(sorted(features.items())),
           "build": eng.build_stats, "inconclusive": notes[:20],
           "known_findings_observed": sorted(known_seen)}
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for n in notes[:20]:
        print("NOTE", n[:600])
    print("%s: %d cases, %d distinct, %s, %.1f s" % (
        pid, evaluations, len(keys), dict(eng.counters), time.time() - t0))
    if violations:
        return 1
    if harness_errors:
        for e in harness_errors[:5]:
            print("HARNESS", e[:3000])
        return 2
    open_ = [n for n in notes if "inconclusive" in n]
    # In-process harnesses may stop building when an interface changes; the
    # end-to-end cases then decide alone.
    unbuilt = [n for n in open_ if "does not build" in n]
    if decided - len(open_) <= 0 or (len(open_) - len(unbuilt)) * 4 > decided:
        print("HARNESS nothing decided")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1], sys.argv[2:]))
    except Harness as e:
        print("HARNESS", e)
        sys.exit(2)
