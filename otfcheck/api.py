"""Facts about the installed libraries: which names modules have, which calls bind.

Answered by /opt/venv's interpreter looking at the libraries alone; the
package under analysis is never imported.
"""
import json
import os
import subprocess
import sys

HELPER = r'''
import builtins, importlib, inspect, json, sys, re, os
q = json.load(sys.stdin)
import matplotlib
matplotlib.use("Agg")
mods = {}
res = {"imports": {}, "chains": {}, "calls": {}, "vocab": [], "callnames": []}
for m in q["imports"]:
    try:
        mods[m] = importlib.import_module(m)
        res["imports"][m] = True
    except ImportError as e:
        res["imports"][m] = False
    except Exception as e:
        res["imports"][m] = None
def walk(chain):
    """(found, object or failing part)"""
    if chain[0] == "builtins":
        o = builtins
        parts = chain[1:]
    else:
        o = None
        for m in (chain[0],):
            if m in mods: o = mods[m]
            else:
                try: o = importlib.import_module(m)
                except Exception: return None, m
        parts = chain[1:]
    for p in parts:
        if not (inspect.ismodule(o) or inspect.isclass(o) or inspect.isroutine(o) or isinstance(o, (int, float, str, type(None))) or type(o).__module__ == "numpy"):
            # attributes of instances (rcParams, loggers ...)
            if not hasattr(o, p):
                return False, p
            o = getattr(o, p)
            continue
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                o = getattr(o, p)
            except AttributeError:
                if inspect.ismodule(o):
                    name = o.__name__ + "." + p
                    if name in sys.modules and name in q["imports"]:
                        o = sys.modules[name]; continue
                return False, p
            except Exception:
                return None, p
    return True, o
for c in q["chains"]:
    ok, o = walk(c)
    res["chains"][".".join(c)] = [ok, None if ok else str(o)]
for i, (c, npos, kws, star, dstar) in enumerate(q["calls"]):
    ok, o = walk(c)
    ans = None
    if ok:
        import numpy as np
        try:
            if isinstance(o, np.ufunc):
                allowed = {"out", "where", "casting", "order", "dtype", "subok", "signature", "extobj", "axes", "axis", "keepdims"}
                badkw = [k for k in kws if k not in allowed]
                if badkw: ans = "unexpected keyword argument %r" % badkw[0]
                elif npos > o.nargs: ans = "takes at most %d arguments" % o.nargs
                elif not star and not dstar and npos < o.nin: ans = "missing arguments"
                else: ans = True
            else:
                s = inspect.signature(o)
                try:
                    if star or dstar: s.bind_partial(*[0] * npos, **{k: 0 for k in kws})
                    else: s.bind(*[0] * npos, **{k: 0 for k in kws})
                    ans = True
                except TypeError as e:
                    ans = str(e)
        except (ValueError, TypeError):
            ans = None
            # no signature: the first lines of the documentation give it
            doc = (getattr(o, "__doc__", None) or "").lstrip()
            heads = re.findall(r"(?m)^%s\(([^()]*(?:\([^()]*\)[^()]*)*)\)" % re.escape(getattr(o, "__name__", "?")), doc)
            if heads and kws:
                names = set(re.findall(r"[A-Za-z_]\w*", " ".join(heads)))
                if not any("**" in h or "..." in h for h in heads):
                    badkw = [k for k in kws if k not in names]
                    if badkw: ans = "unexpected keyword argument %r" % badkw[0]
                    else: ans = True
    res["calls"][str(i)] = ans
# vocabulary of attribute names and keyword names: everything a library of the session knows
for m in q["imports"]:
    try: importlib.import_module(m)
    except Exception: pass
attrs, kws = set(), set()
roots = ("numpy", "scipy", "matplotlib", "mpl_toolkits", "skimage", "tifffile")
rx = re.compile(r"\.([A-Za-z_]\w*)")
rk = re.compile(r"([A-Za-z_]\w*)\s*=")
rd = re.compile(r"def ([A-Za-z_]\w*)")
for name, m in list(sys.modules.items()):
    if name.split(".")[0] in roots or name in ("logging", "typing", "pathlib", "functools", "collections", "time", "warnings", "os", "sys", "re", "copy", "subprocess"):
        f = getattr(m, "__file__", None)
        if f and f.endswith(".py"):
            try: t = open(f, errors="replace").read()
            except OSError: continue
            attrs.update(rx.findall(t)); attrs.update(rd.findall(t)); kws.update(rk.findall(t))
        try: attrs.update(dir(m))
        except Exception: pass
import numpy as np
for t in (int, float, complex, str, bytes, list, tuple, dict, set, frozenset, slice, range, type, property, object, BaseException, OSError, np.ndarray, np.generic, np.dtype, type(lambda: 0), type(len), type(iter([])), staticmethod, classmethod, super, np.random.RandomState, np.ma.MaskedArray, np.ufunc):
    attrs.update(dir(t))
import functools
attrs.update(dir(functools.lru_cache(lambda: 0))); attrs.update(dir((lambda: (yield))()))
attrs.update(["__dict__", "__name__", "__qualname__", "__doc__", "__module__", "__class__", "__file__"])
res["vocab"] = sorted(attrs); res["kws"] = sorted(kws | {a[4:] for a in attrs if a.startswith("set_")})
json.dump(res, sys.stdout)
'''

PY = "/opt/venv/bin/python"


def ask(imports, chains, calls):
    q = {"imports": sorted(imports), "chains": [list(c) for c in chains], "calls": calls}
    py = PY if os.path.exists(PY) else sys.executable
    p = subprocess.run([py, "-I", "-c", HELPER], input=json.dumps(q), capture_output=True, text=True, timeout=240, cwd="/")
    if p.returncode:
        raise RuntimeError("library facts: " + p.stderr.strip()[-300:])
    return json.loads(p.stdout)


def stdlib(name):
    return name.split(".")[0] in sys.stdlib_module_names
