"""Runs the in-process harnesses and turns their reports into results."""
import json

from . import build
from .check import FuncTask, Result
from .engine import Harness, Inconclusive

ANN = ["src/annotations/annotation.cpp", "src/annotations/literal_value.cpp",
       "src/annotations/parser.cpp"]


def harness_task(name, exe_args, args, timeout=600, stdin=None):
    def f(eng):
        with eng.lock:
            try:
                exe, stats = build.harness(*exe_args)
            except build.BuildError as e:
                # The interface the harness drives has changed: nothing can be
                # said this way (end-to-end cases still decide).
                raise Inconclusive("harness %s does not build: %s" % (name, str(e)[-600:]))
        rc, out, err = eng.run([exe] + args, timeout=timeout)
        if rc is None:
            return Result(["the harness did not terminate: %s %s" % (name, args)], key=name)
        out, err = out.decode(errors="replace"), err.decode(errors="replace")
        problems, stat = [], {}
        for line in out.splitlines():
            if line.startswith("VIOL "):
                v = json.loads(line[5:])
                problems.append("input %s\n  %s" % (json.dumps(v["input"]), v["problem"]))
            elif line.startswith("STAT "):
                stat = json.loads(line[5:])
        if rc != 0:
            problems.append("harness ended with status %s: %s" % (rc, err[:2500]))
        elif not stat:
            raise Harness("no statistics from harness " + name)
        for k, v in stat.items():
            if k != "violations":
                eng.count(name.split(":")[0] + "." + k, v)
        return Result(problems, key=name, features=[name.split(":")[0]],
                      evals=stat.get("inputs") or stat.get("histories") or 1,
                      distinct=stat.get("token_shapes") or stat.get("distinct_transitions") or stat.get("shapes"),
                      sample={"harness": name, "args": args, "statistics": stat})
    return FuncTask(name, f, "harness %s %s\n" % (exe_args[0], " ".join(args)))
