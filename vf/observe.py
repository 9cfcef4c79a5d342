"""Runs inside a fresh interpreter: imports the generated module(s), evaluates
the probes of a case and writes what it observed as JSON.

usage: observe.py JOB.json OUT.json"""
import enum
import gc
import importlib
import json
import sys
import types
import warnings

SKIP_MODULE = {"__doc__", "__file__", "__loader__", "__name__", "__package__",
               "__spec__", "__cached__", "__builtins__", "__path__"}
SKIP_CLASS = {"__doc__", "__module__", "__weakref__", "__dict__", "__slots__",
              "__pybind11_module_local_v4__", "__static_attributes__",
              "__firstlineno__", "__annotations__"}
ENUM_EXTRA = {"__init__", "__int__", "__index__", "__eq__", "__ne__", "__hash__",
              "__repr__", "__str__", "__getstate__", "__setstate__", "name",
              "value", "__members__", "__entries", "__and__", "__or__", "__xor__",
              "__rand__", "__ror__", "__rxor__", "__invert__", "__lt__", "__gt__",
              "__le__", "__ge__", "__doc__"}


def is_enum(obj):
    return isinstance(obj, type) and "__members__" in dir(obj) and \
        "__entries" in obj.__dict__


def own(cls):
    """Attributes that the bindings added to a class itself."""
    names = set()
    for k in cls.__dict__:
        if k in SKIP_CLASS or k.startswith("__pybind11"):
            continue
        if is_enum(cls) and k in ENUM_EXTRA:
            continue
        names.add(k)
    return names


def kind(obj):
    if isinstance(obj, types.ModuleType):
        return "module"
    if is_enum(obj):
        return "enum"
    if isinstance(obj, type):
        return "class"
    if type(obj).__name__ == "instancemethod":
        return "method"
    if isinstance(obj, staticmethod):
        return "static"
    if isinstance(obj, property):
        return "static_property" if type(obj) is not property else "property"
    if isinstance(obj, (types.BuiltinFunctionType, types.FunctionType)):
        return "function"
    if is_enum(type(obj)):
        return "enumerator"
    return "value"


def api(obj, name="", seen=None):
    """{dotted name: kind} for everything reachable from obj by attributes the
    bindings added.  Objects reachable twice are listed under each name, but
    descended into only where they were defined."""
    out = {}
    if isinstance(obj, types.ModuleType):
        items = [(k, v) for k, v in vars(obj).items() if k not in SKIP_MODULE]
    else:
        items = [(k, v) for k, v in vars(obj).items() if k in own(obj)]
    for k, v in items:
        full = name + "." + k if name else k
        kd = kind(v)
        out[full] = kd
        if kd == "module" and v.__name__.endswith("." + k):
            out.update(api(v, full))
        elif kd in ("class", "enum"):
            here = (obj.__name__ if isinstance(obj, types.ModuleType)
                    else obj.__module__ + "." + obj.__qualname__)
            if v.__module__ + "." + v.__qualname__ == here + "." + k:
                out.update(api(v, full))
            else:
                out[full] = "alias-" + kd
    return out


def norm(v, depth=0):
    if v is None or isinstance(v, (bool, int, str)) and type(v) in (bool, int, str):
        return v
    if isinstance(v, float):
        return {"f": repr(v)}
    if isinstance(v, bytes):
        return {"b": v.hex()}
    if depth > 6:
        return {"r": "..."}
    if isinstance(v, (list, tuple)):
        return [norm(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((norm(x, depth + 1) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(k): norm(x, depth + 1) for k, x in v.items()}
    return {"r": type(v).__name__ + ":" + repr(v)[:200]}


def exc(e):
    return {"!": type(e).__name__, "msg": str(e)[:300]}


def main():
    job = json.load(open(sys.argv[1]))
    sys.path[:0] = job["paths"]
    result = {"import": None, "probes": {}}
    env = {"api": api, "own": own, "kind": kind, "is_enum": is_enum, "gc": gc,
           "sys": sys, "warnings": warnings}

    def flush():
        with open(sys.argv[2] + ".tmp", "w") as f:
            json.dump(result, f)
        import os
        os.replace(sys.argv[2] + ".tmp", sys.argv[2])
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            mods = [importlib.import_module(n) for n in job["modules"]]
        result["warnings"] = [str(w.message) for w in caught]
        for n, mod in zip(job["modules"], mods):
            env[n] = mod
        env["m"] = mods[-1]
        result["import"] = "ok"
    except BaseException as e:
        result["import"] = exc(e)
        flush()
        return
    flush()
    for setup in job.get("setup", []):
        exec(setup, env)
    for key, code in job["probes"]:
        try:
            if "\n" in code or code.startswith("@"):
                env.pop("_", None)
                exec(code.lstrip("@"), env)
                v = env.get("_")
            else:
                v = eval(code, env)
            result["probes"][key] = norm(v)
        except BaseException as e:
            result["probes"][key] = exc(e)
    flush()


main()
