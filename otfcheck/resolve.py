"""Resolution of names, imports, attributes and call signatures over the syntax tree.

A definite error is one that every execution reaching the construct runs into:
no binding can reach a name, no class of the receiver's hierarchy has the
attribute, no parameter takes an argument.
"""
import ast
import builtins
import os
import string

from . import api

BUILTINS = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__debug__", "__annotations__", "__dict__", "__class__"}
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
TRANSPARENT = {"staticmethod", "classmethod", "property", "cached_property", "functools.cached_property", "lru_cache", "functools.lru_cache", "abstractmethod", "abc.abstractmethod", "cache", "functools.cache", "wraps", "functools.wraps"}
DIST = {"skimage": "scikit-image", "mpl_toolkits": "matplotlib", "PIL": "pillow", "cv2": "opencv-python", "sklearn": "scikit-learn", "yaml": "pyyaml", "dateutil": "python-dateutil"}


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return [e.id] + out[::-1]
    return None


def targets(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def bindings(node, into=None):
    """names bound by executing the statements of a scope (nested scopes excluded)"""
    out = set() if into is None else into
    todo = list(node if isinstance(node, list) else [node])
    while todo:
        n = todo.pop()
        if isinstance(n, FUN + (ast.ClassDef,)):
            out.add(n.name)
            todo += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, COMP):
            # only assignment expressions escape
            out.update(x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr))
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchStar,)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        todo += list(ast.iter_child_nodes(n))
    return out


def params(f):
    a = f.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def is_main(test):
    return isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == "__name__" and isinstance(test.ops[0], ast.Eq)


def catches(handlers):
    """names of exceptions a try statement takes care of"""
    out = set()
    for h in handlers:
        if h.type is None:
            out.add("*")
        else:
            for e in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                d = dotted(e)
                out.add(d[-1] if d else "*")
    if out & {"Exception", "BaseException"}:
        out.add("*")
    return out


class Cls:
    def __init__(self, mod, node, outer=None):
        self.mod, self.node, self.name = mod, node, node.name
        self.outer = outer
        self.methods, self.attrs, self.inst, self.bases, self.ext = {}, set(), set(), [], []
        self.open = False
        for s in node.body:
            if isinstance(s, FUN):
                self.methods[s.name] = s
        self.attrs |= bindings(node.body)
        self.attrs |= {"__doc__", "__module__", "__dict__", "__class__", "__name__", "__qualname__", "__weakref__"}
        for s in node.body:
            if isinstance(s, FUN):
                self._method(s)
                continue
            if isinstance(s, ast.ClassDef):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    self.inst |= {w for w in n.value.replace(",", " ").split() if w.isidentifier()}
                if isinstance(n, ast.Lambda) and n.args.args:
                    self._stores(n, n.args.args[0].arg)

    def _method(self, s):
        if s.name in ("__getattr__", "__getattribute__"):
            self.open = True
        if not s.args.args and not s.args.posonlyargs:
            return
        self._stores(s, (s.args.posonlyargs + s.args.args)[0].arg)

    def _stores(self, s, me):
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                self.inst.add(n.attr)
            if isinstance(n, ast.Call):
                f = dotted(n.func)
                if f in (["setattr"], ["object", "__setattr__"]) and len(n.args) >= 2:
                    if isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        if isinstance(n.args[1], ast.Constant):
                            self.inst.add(n.args[1].value)
                        else:
                            self.open = True
                elif f and f[0] == me and f[1:2] == ["__dict__"]:
                    self.open = True
                elif f and f[0] == "vars" or (f == ["vars"]):
                    self.open = True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and dotted(n.value) == [me, "__dict__"]:
                self.open = True


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.main = [s for s in tree.body if isinstance(s, ast.If) and is_main(s.test)]
        lib = [s for s in tree.body if s not in self.main]
        self.names = bindings(lib)
        self.main_names = bindings(self.main) if self.main else set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.names |= set(n.names)
        self.star = False
        self.imports = {}  # name -> ("mod", dotted) | ("from", module, name)
        self.count = {}
        self.defs = {}
        self._collect(tree.body)

    def _collect(self, body):
        for s in body:
            self._one(s)

    def _one(self, s):
        def put(n, v):
            self.count[n] = self.count.get(n, 0) + 1
            self.defs[n] = v

        if isinstance(s, ast.Import):
            for a in s.names:
                put(a.asname or a.name.split(".")[0], ("mod", a.name if a.asname else a.name.split(".")[0]))
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                if a.name == "*":
                    self.star = True
                put(a.asname or a.name, ("from", source(self, s), a.name))
        elif isinstance(s, FUN):
            put(s.name, ("fn", s))
        elif isinstance(s, ast.ClassDef):
            put(s.name, ("cls", s))
        elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ("body", "orelse", "finalbody"):
                self._collect(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []):
                self._collect(h.body)
            for n in bindings([s]) - self.defs.keys():
                put(n, None)
        else:
            for n in bindings([s]):
                put(n, None)


def source(mod, s):
    """dotted name of the module an import-from names"""
    if not s.level:
        return s.module
    pk = mod.name.split(".")
    if not mod.path.endswith("__init__.py"):
        pk = pk[:-1]
    pk = pk[: len(pk) - (s.level - 1)]
    return ".".join(pk + ([s.module] if s.module else []))


class Resolver:
    def __init__(self, root, pkg="pyotf"):
        self.root, self.pkg = root, pkg
        self.mods, self.found, self.checked, self.scopes = {}, [], {}, set()
        base = os.path.join(root, pkg)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if not d.startswith((".", "__pycache__")))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                self.mods[".".join(rel)] = Mod(".".join(rel), p, ast.parse(open(p).read(), p))
        self.classes = {}
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[n] = Cls(m, n)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.typ(b, Scope(self, c.mod, None, None))
                if r and r[0] == "cls":
                    c.bases.append(r[1])
                elif r and r[0] == "ext":
                    c.ext.append(r[1])
                elif isinstance(b, ast.Name) and b.id in BUILTINS and b.id not in c.mod.names:
                    c.ext.append(("builtins", b.id))
                else:
                    c.open = True
            if c.node.keywords:
                c.open = True
            for d in c.node.decorator_list:
                c.open = c.open or True
        self.vocab = set()
        self.kwvocab = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.vocab.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 400:
                    w = "".join(ch if ch.isalnum() or ch == "_" else " " for ch in n.value).split()
                    self.vocab |= set(w)
                    self.kwvocab |= set(w)
                elif isinstance(n, FUN + (ast.ClassDef,)):
                    self.vocab.add(n.name)
                    if isinstance(n, FUN):
                        self.kwvocab |= set(params(n))
                    else:
                        self.vocab |= bindings(n.body)
                elif isinstance(n, ast.Lambda):
                    self.kwvocab |= set(params(n))
                elif isinstance(n, ast.keyword) and n.arg:
                    self.vocab.add(n.arg)
            self.vocab |= m.names
        # questions to the libraries
        self.chains, self.calls, self.imports = {}, [], {}
        self.unknown_attr, self.unknown_kw = [], []

    # ------------------------------------------------------------ classes
    def mro(self, c, seen=()):
        out = [c]
        for b in c.bases:
            if b not in seen:
                more = self.mro(b, seen + (c,))
                out = [x for x in out if x not in more] + more
        return out

    def children(self, c):
        return [d for d in self.classes.values() if c in self.mro(d) and d is not c]

    def leaves(self, c):
        ch = self.children(c)
        # a class is analysed for its receivers: itself and everything derived from it
        return [c] + ch

    def has_attr(self, c, name):
        """True, False, or the external bases to ask"""
        ext = []
        for k in self.mro(c):
            if k.open or name in k.attrs or name in k.inst:
                return True
            ext += k.ext
        if name in dir(object):
            return True
        ext = [e for e in ext if tuple(e) != ("builtins", "object")]
        return ext or False

    def method(self, c, name, after=None):
        """(class, function) of the definition a receiver of class c uses; None unknown, False none"""
        m = self.mro(c)
        if after is not None:
            if after not in m:
                return None
            m = m[m.index(after) + 1:]
        for k in m:
            if name in k.methods:
                return k, k.methods[name]
            if name in k.attrs or k.open:
                return None
            if [e for e in k.ext if tuple(e) != ("builtins", "object")]:
                return None
        return False

    # ------------------------------------------------------------ types of expressions
    def glob(self, mod, name):
        if mod.count.get(name) != 1 or mod.star:
            return None
        d = mod.defs.get(name)
        return self.entity(d, mod)

    def entity(self, d, mod):
        if d is None:
            return None
        if d[0] == "mod":
            return ("pkg", d[1]) if d[1] in self.mods else ("ext", (d[1],))
        if d[0] == "from":
            src, name = d[1], d[2]
            if src in self.mods:
                if src + "." + name in self.mods:
                    return ("pkg", src + "." + name)
                return self.glob(self.mods[src], name)
            return ("ext", (src, name))
        if d[0] == "fn":
            return ("fn", d[1], mod)
        if d[0] == "cls":
            return ("cls", self.classes[d[1]])
        return None

    def typ(self, e, sc):
        if isinstance(e, ast.Name):
            return sc.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.typ(e.value, sc)
            if not b:
                return None
            if b[0] == "ext":
                return ("ext", b[1] + (e.attr,))
            if b[0] == "pkg":
                if b[1] + "." + e.attr in self.mods:
                    return ("pkg", b[1] + "." + e.attr)
                return self.glob(self.mods[b[1]], e.attr)
            if b[0] in ("inst", "cls"):
                m = self.method(b[1], e.attr)
                if m:
                    return ("meth", m[1], m[0], b)
                return None
            if b[0] == "super":
                m = self.method(b[1], e.attr, after=b[2])
                if m:
                    return ("meth", m[1], m[0], ("inst", b[1]))
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and sc.cls and sc.recv:
                return ("super", sc.recv, sc.cls)
            f = self.typ(e.func, sc)
            if f and f[0] == "cls" and not f[1].open and self.method(f[1], "__new__") is False:
                return ("inst", f[1])
        return None

    # ------------------------------------------------------------ reports
    def bad(self, rule, node, mod, where, msg):
        self.found.append((rule, f"{os.path.basename(mod.path)}:{node.lineno} {where}", msg))

    def count(self, rule):
        self.checked[rule] = self.checked.get(rule, 0) + 1


class Scope:
    """a function (or the module) being checked, with the class of its receiver"""

    def __init__(self, R, mod, fn, cls, recv=None, outer=None, main=False):
        self.R, self.mod, self.fn, self.cls, self.recv, self.outer, self.main = R, mod, fn, cls, recv, outer, main
        self.local, self.glob = set(), set()
        self.known = {}
        if fn is not None:
            body = fn.body if isinstance(fn.body, list) else [fn.body]
            self.local = bindings(body) | set(params(fn))
            for n in walk_scope(body):
                if isinstance(n, ast.Global):
                    self.glob |= set(n.names)
                elif isinstance(n, ast.Nonlocal):
                    self.glob |= set()
                    self.local -= set(n.names)
            self.local -= self.glob
            cnt, val = {}, {}
            for n in walk_scope(body):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    val[n.targets[0].id] = n.value
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    cnt[n.id] = cnt.get(n.id, 0) + 1
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        nm = a.asname or a.name.split(".")[0]
                        cnt[nm] = cnt.get(nm, 0) + 1
                        val[nm] = ("mod", a.name if a.asname else a.name.split(".")[0]) if isinstance(n, ast.Import) else ("from", source(mod, n), a.name)
                if isinstance(n, FUN + (ast.ClassDef,)) and n is not fn:
                    cnt[n.name] = cnt.get(n.name, 0) + 1
                    val[n.name] = ("fn", n) if isinstance(n, FUN) else ("cls", n)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    cnt[n.name] = 2
            ps = set(params(fn))
            self.single = {k: v for k, v in val.items() if cnt.get(k) == 1 and k not in ps and k not in self.glob}
            if cls is not None and recv is not None:
                a = fn.args.posonlyargs + fn.args.args
                decs = [dotted(d) or [] for d in fn.decorator_list]
                if a and a[0].arg not in cnt and ["staticmethod"] not in decs:
                    self.known[a[0].arg] = ("cls" if ["classmethod"] in decs or fn.name == "__new__" else "inst", recv)
        else:
            self.single = {}
        self.busy = set()

    def lookup(self, name):
        if name in self.known:
            return self.known[name]
        if name in self.local:
            v = self.single.get(name)
            if v is None or name in self.busy:
                return None
            if isinstance(v, tuple):
                return self.R.entity(v, self.mod)
            self.busy.add(name)
            try:
                t = self.R.typ(v, self)
            finally:
                self.busy.discard(name)
            return t if t and t[0] in ("inst", "cls", "ext", "fn") and not (t[0] == "ext" and isinstance(v, ast.Call)) else None
        if self.outer is not None:
            return self.outer.lookup(name)
        if name in self.mod.names or name in self.mod.main_names:
            return self.R.glob(self.mod, name)
        if name in BUILTINS and not self.mod.star:
            return ("ext", ("builtins", name))
        return None


def walk_scope(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUN + (ast.ClassDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))


# ---------------------------------------------------------------- signatures of package functions

def bind(fn, call, skip, R, sc, depth=0):
    """None if the arguments may bind, else the reason they cannot"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ponly = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    npos, star = 0, False
    for x in call.args:
        if isinstance(x, ast.Starred):
            if isinstance(x.value, (ast.Tuple, ast.List)) and not any(isinstance(y, ast.Starred) for y in x.value.elts):
                npos += len(x.value.elts)
            else:
                star = True
        else:
            npos += 1
    kws, dstar = [], False
    for k in call.keywords:
        if k.arg is not None:
            kws.append(k.arg)
        else:
            g = literal_keys(k.value)
            if g is None:
                dstar = True
            else:
                kws += g
    if npos > len(pos) and not a.vararg:
        return f"takes {len(pos)} positional arguments but {npos} are given"
    taken = set(pos[:npos])
    for k in kws:
        if kws.count(k) > 1:
            return f"keyword argument {k!r} repeated"
        if k in taken and k not in ponly:
            return f"multiple values for argument {k!r}"
        if (k not in pos or k in ponly) and k not in kwonly:
            if not a.kwarg:
                return f"unexpected keyword argument {k!r}"
            why = forwarded(fn, a.kwarg.arg, k, R, sc, depth)
            if why:
                return why
    if not star and not dstar:
        ndef = len(a.defaults)
        req = [x.arg for x in (a.posonlyargs + a.args)][: len(a.posonlyargs) + len(a.args) - ndef][skip:]
        miss = [p for i, p in enumerate(req) if i >= npos and p not in kws]
        miss += [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and k.arg not in kws]
        if miss:
            return f"missing required argument {miss[0]!r}"
    return None


def literal_keys(e):
    if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
        return [k.value for k in e.keys]
    if isinstance(e, ast.Call) and dotted(e.func) == ["dict"] and not e.args and all(k.arg for k in e.keywords):
        return [k.arg for k in e.keywords]
    return None


def forwarded(fn, name, key, R, sc, depth):
    """does **name only go to calls none of which can take key?"""
    if depth > 6:
        return None
    uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name]
    calls = [(n, k) for n in ast.walk(fn) if isinstance(n, ast.Call) for k in n.keywords if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == name]
    if not calls or len(uses) != len(calls):
        return None
    cls = next((c for c in R.classes.values() if fn in c.methods.values()), None)
    mod = sc.mod if cls is None else cls.mod
    if cls is None:
        mod = next((m for m in R.mods.values() if fn in m.tree.body), None)
        if mod is None:
            return None
    sub = Scope(R, mod, fn, cls, cls)
    for c, _ in calls:
        t = R.typ(c.func, sub)
        if any(k.arg == key for k in c.keywords):
            return f"multiple values for keyword argument {key!r} where {fn.name} passes its keywords on (line {c.lineno})"
        g = callee(t, R)
        if g is None:
            continue
        f, skip = g
        a = f.args
        allp = {x.arg for x in a.args + a.kwonlyargs}
        if key in allp:
            continue
        if not a.kwarg:
            return f"unexpected keyword argument {key!r} of {f.name}, reached through {fn.name} (line {c.lineno})"
        why = forwarded(f, a.kwarg.arg, key, R, sub, depth + 1)
        if why:
            return why
    return None


def plain(fn):
    for d in fn.decorator_list:
        n = dotted(d.func if isinstance(d, ast.Call) else d)
        if not n or ".".join(n) not in TRANSPARENT:
            return False
    return True


def callee(t, R):
    """(function, parameters already filled) of a package callable"""
    if not t:
        return None
    if t[0] == "fn":
        return (t[1], 0) if plain(t[1]) else None
    if t[0] == "cls":
        if R.method(t[1], "__new__") is not False or t[1].open:
            return None
        m = R.method(t[1], "__init__")
        return (m[1], 1) if m and plain(m[1]) else None
    if t[0] == "meth":
        fn, cls, recv = t[1], t[2], t[3]
        decs = [(dotted(d.func if isinstance(d, ast.Call) else d) or [""])[-1] for d in fn.decorator_list]
        if not plain(fn) or set(decs) & {"property", "cached_property"}:
            return None
        if "staticmethod" in decs:
            return fn, 0
        if "classmethod" in decs:
            return fn, 1
        return fn, 1 if recv[0] == "inst" else 0
    return None


# ---------------------------------------------------------------- the walk

class Flow:
    """forward may-analysis of bound names over the statements of one scope, checking every expression on the way"""

    def __init__(self, R, sc, where, order):
        self.R, self.sc, self.where = R, sc, where
        self.order = order  # report uses before any binding
        self.quiet = set()  # kinds of exceptions caught around the current statement
        self.guard = []

    def say(self, rule, node, msg, exc):
        if "*" in self.quiet or exc in self.quiet or (exc == "ModuleNotFoundError" and "ImportError" in self.quiet):
            return
        self.R.bad(rule, node, self.sc.mod, self.where, msg)

    # state: set of names that may be bound, or None when unreachable
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, s, st):
        if isinstance(s, FUN):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(d, st)
            self.R.later.append((s, self.sc, self.where))
            return st | {s.name}
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(d, st)
            self.R.later_cls.append((s, self.sc, self.where, set(st)))
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.imports(s)
            return st | bindings([s])
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            st = st | bindings([s.test])
            g = self.guards(s.test)
            self.guard.append(g)
            a = self.block(s.body, st)
            self.guard.pop()
            b = self.block(s.orelse, st)
            t = s.test
            if isinstance(t, ast.Constant):
                return a if t.value else b
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, st)
            st = st | bindings([s.target])
            inner = st | bindings(s.body)
            self.expr(s.target, inner)
            out = self.block(s.body, inner)
            e = self.block(s.orelse, st | bindings(s.body))
            return self.join(self.join(inner, out), e)
        if isinstance(s, ast.While):
            self.expr(s.test, st)
            inner = st | bindings(s.body) | bindings([s.test])
            out = self.block(s.body, inner)
            e = self.block(s.orelse, inner)
            forever = isinstance(s.test, ast.Constant) and s.test.value
            if forever and not any(isinstance(n, ast.Break) for n in walk_scope(s.body)):
                return None
            return self.join(inner, e)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = st | bindings([i.optional_vars])
                    self.expr(i.optional_vars, st)
            out = self.block(s.body, st)
            return out if out is not None else None if not s.items else None
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            old = set(self.quiet)
            self.quiet |= catches(s.handlers)
            b = self.block(s.body, st)
            self.quiet = old
            hs = st | bindings(s.body)
            out = self.block(s.orelse, b) if b is not None else None
            for h in s.handlers:
                if h.type is not None:
                    self.expr(h.type, hs)
                o = self.block(h.body, hs | ({h.name} if h.name else set()))
                if o is not None and h.name:
                    o = o - {h.name}
                out = self.join(out, o)
            if s.finalbody:
                f = self.block(s.finalbody, hs if out is None else hs | out)
                if f is None:
                    return None
                if out is not None:
                    out = out | bindings(s.finalbody)
            return out
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            for e in ast.iter_child_nodes(s):
                self.expr(e, st)
            if isinstance(s, ast.Raise) and s.exc is not None:
                self.raised(s.exc)
            return None if not isinstance(s, (ast.Break, ast.Continue)) else None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.expr(t, st)
                if isinstance(t, ast.Name):
                    st = st - {t.id}
            return st
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            st = st | bindings([s.value])
            for t in s.targets:
                self.expr(t, st)
                st = st | bindings([t])
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.name(s.target, st)
            else:
                self.expr(s.target, st)
                if isinstance(s.target, ast.Attribute):
                    self.attribute(s.target)
            self.expr(s.value, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st)
            if not isinstance(s.target, ast.Name):
                self.expr(s.target, st)
            if self.sc.fn is None:
                self.expr(s.annotation, st)
            return st | (bindings([s.target]) if s.value is not None else set())
        if isinstance(s, ast.Match):
            self.expr(s.subject, st)
            out = st
            for c in s.cases:
                inner = st | bindings([c.pattern])
                if c.guard is not None:
                    self.expr(c.guard, inner)
                out = self.join(out, self.block(c.body, inner))
            return out
        if isinstance(s, ast.Assert):
            self.expr(s.test, st)
            if s.msg is not None:
                self.expr(s.msg, st)
            return st | bindings([s.test])
        for e in ast.iter_child_nodes(s):
            self.expr(e, st)
        return st | bindings([s])

    def guards(self, test):
        """attribute names whose presence the branch tests"""
        out = set()
        for n in ast.walk(test):
            if isinstance(n, ast.Call) and dotted(n.func) in (["hasattr"], ["getattr"]) and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            if isinstance(n, (ast.Name, ast.Attribute)) and (dotted(n) or [""])[-1] == "TYPE_CHECKING":
                out.add("*")
        return out

    def guarded(self, name):
        return any(name in g or "*" in g for g in self.guard)

    # ------------------------------------------------------------ imports
    def imports(self, s):
        R = self.R
        if self.guarded("*"):
            return
        if isinstance(s, ast.Import):
            for a in s.names:
                R.count("imports")
                if a.name.split(".")[0] == R.pkg:
                    if a.name not in R.mods:
                        self.say("imports", s, f"no module {a.name}", "ModuleNotFoundError")
                else:
                    R.imports.setdefault(a.name, []).append((s, self.sc.mod, self.where, frozenset(self.quiet), self.sc))
            return
        src = source(self.sc.mod, s)
        for a in s.names:
            R.count("imports")
            if src.split(".")[0] == R.pkg:
                if src not in R.mods:
                    self.say("imports", s, f"no module {src}", "ModuleNotFoundError")
                elif a.name != "*" and a.name not in R.mods[src].names and src + "." + a.name not in R.mods and not R.mods[src].star and "__getattr__" not in R.mods[src].names and a.name not in BUILTINS:
                    self.say("imports", s, f"{src} does not define {a.name}", "ImportError")
            else:
                R.imports.setdefault(src, []).append((s, self.sc.mod, self.where, frozenset(self.quiet), self.sc))
                if a.name != "*":
                    self.chain((src, a.name), s, "imports", "ImportError")

    def chain(self, ch, node, rule, exc):
        if "*" in self.quiet or exc in self.quiet or (exc == "ModuleNotFoundError" and "ImportError" in self.quiet):
            return
        if self.guarded(ch[-1]):
            return
        self.R.chains.setdefault(tuple(ch), []).append((rule, node, self.sc.mod, self.where))

    # ------------------------------------------------------------ expressions
    def expr(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, (ast.Load, ast.Del)):
                self.name(e, st)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, st)
            sub = Scope(self.R, self.sc.mod, as_function(e), None, None, self.sc, self.sc.main)
            # a lambda of a class body gets the receiver as its first argument
            if self.sc.cls is not None and self.sc.fn is None and e.args.args:
                sub.known[e.args.args[0].arg] = None
                del sub.known[e.args.args[0].arg]
            f = Flow(self.R, sub, self.where, False)
            f.quiet, f.guard = self.quiet, self.guard
            f.expr(e.body, set(params(e)))
            return
        if isinstance(e, COMP):
            sub = comp_scope(self.R, self.sc, e)
            f = Flow(self.R, sub, self.where, self.order)
            f.quiet, f.guard = self.quiet, self.guard
            cur = set(st)
            for i, g in enumerate(e.generators):
                (self if i == 0 else f).expr(g.iter, cur if i else st)
                cur |= bindings([g.target])
                for c in g.ifs:
                    f.expr(c, cur)
                    cur |= bindings([c])
            if isinstance(e, ast.DictComp):
                f.expr(e.key, cur)
                f.expr(e.value, cur)
            else:
                f.expr(e.elt, cur)
            return
        if isinstance(e, ast.BoolOp):
            cur = set(st)
            n = 0
            for v in e.values:
                self.expr(v, cur)
                cur |= bindings([v])
                if isinstance(e.op, ast.And):
                    self.guard.append(self.guards(v))
                    n += 1
            del self.guard[len(self.guard) - n:]
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st)
            self.guard.append(self.guards(e.test))
            self.expr(e.body, st | bindings([e.test]))
            self.guard.pop()
            self.expr(e.orelse, st | bindings([e.test]))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            return
        if isinstance(e, ast.Attribute):
            self.expr(e.value, st)
            if isinstance(e.ctx, (ast.Load, ast.Del)):
                self.attribute(e)
            return
        if isinstance(e, ast.Call):
            self.expr(e.func, st)
            cur = set(st)
            for x in e.args:
                self.expr(x, cur)
                cur |= bindings([x])
            for k in e.keywords:
                self.expr(k.value, cur)
                cur |= bindings([k.value])
            self.call(e)
            return
        cur = st
        for c in ast.iter_child_nodes(e):
            self.expr(c, cur)
            b = bindings([c]) if any(isinstance(x, ast.NamedExpr) for x in ast.walk(c)) else None
            if b:
                cur = cur | b

    def name(self, n, st):
        R, sc = self.R, self.sc
        R.count("names")
        s = sc
        first = True
        while s is not None and s.fn is not None:
            if n.id in s.local:
                if first and self.order and n.id not in st and not s.mod.star:
                    self.say("names", n, f"local variable {n.id!r} is read where no assignment can have been executed", "UnboundLocalError")
                return
            if n.id in s.glob:
                break
            if not getattr(s, "comp", False):
                first = False
            s = s.outer
        if s is not None and s.fn is None and s.cls is not None and first and n.id in st:
            return  # a name of the class body
        mod = sc.mod
        if mod.star:
            return
        main = root(sc).main
        if n.id in mod.names or (main and n.id in mod.main_names):
            toplevel = all_module(sc)
            if toplevel and self.order and n.id not in st and n.id not in BUILTINS:
                self.say("names", n, f"{n.id!r} is used at module level before it is bound", "NameError")
            return
        if n.id in BUILTINS:
            return
        why = f"{n.id!r} is bound nowhere in the module"
        if n.id in mod.main_names:
            why = f"{n.id!r} is bound only when the module runs as a script"
        self.say("names", n, why, "NameError")

    def attribute(self, e):
        R = self.R
        R.count("attributes")
        t = R.typ(e.value, self.sc)
        if t is None or t[0] in ("fn", "meth"):
            R.unknown_attr.append((e, self.sc.mod, self.where)) if not self.guarded(e.attr) and not ({"*", "AttributeError"} & self.quiet) else None
            return
        if t[0] == "ext":
            if isinstance(e.value, ast.Call):
                return
            self.chain(t[1] + (e.attr,), e, "attributes", "AttributeError")
            return
        if t[0] == "pkg":
            m = R.mods[t[1]]
            if e.attr not in m.names and t[1] + "." + e.attr not in R.mods and not m.star and e.attr not in BUILTINS and not self.guarded(e.attr):
                self.say("attributes", e, f"module {t[1]} has no attribute {e.attr!r}", "AttributeError")
            return
        if t[0] == "super":
            m = R.method(t[1], e.attr, after=t[2])
            if m is False and e.attr not in dir(object):
                self.say("attributes", e, f"no base class of {t[2].name} defines {e.attr!r}", "AttributeError")
            return
        if t[0] in ("inst", "cls"):
            h = R.has_attr(t[1], e.attr)
            if h is True or self.guarded(e.attr):
                return
            if isinstance(e.value, ast.Name) and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == e.value.id and x.attr == e.attr for x in (ast.walk(self.sc.fn) if self.sc.fn is not None else ())):
                return
            if h is False:
                if t[0] == "cls" and e.attr in dir(type):
                    return
                self.say("attributes", e, f"{t[1].name} objects have no attribute {e.attr!r}", "AttributeError")
            elif len(h) == 1:
                self.chain(tuple(h[0]) + (e.attr,), e, "attributes", "AttributeError")

    def raised(self, e):
        d = e.func if isinstance(e, ast.Call) else e
        t = self.R.typ(d, self.sc)
        self.R.count("raises")
        if t and t[0] == "ext" and t[1][0] == "builtins" and len(t[1]) == 2:
            o = getattr(builtins, t[1][1], None)
            if o is not None and not (isinstance(o, type) and issubclass(o, BaseException)):
                self.say("raises", e, f"{t[1][1]} is not an exception", "TypeError")
        if t and t[0] == "fn":
            if not isinstance(e, ast.Call):
                self.say("raises", e, "a function is raised", "TypeError")

    def call(self, c):
        R = self.R
        R.count("calls")
        t = R.typ(c.func, self.sc)
        g = callee(t, R)
        if g is not None:
            why = bind(g[0], c, g[1], R, self.sc)
            if why:
                self.say("calls", c, f"call of {g[0].name}: {why}", "TypeError")
            return
        if t and t[0] == "cls":
            m = R.method(t[1], "__init__")
            if m is False and R.method(t[1], "__new__") is False and not t[1].open and (c.args or c.keywords) and not any(isinstance(a, ast.Starred) for a in c.args) and not any(k.arg is None for k in c.keywords):
                self.say("calls", c, f"{t[1].name}() takes no arguments", "TypeError")
            return
        if t and t[0] == "ext":
            if "*" in self.quiet or "TypeError" in self.quiet:
                return
            npos = sum(not isinstance(a, ast.Starred) for a in c.args)
            star = any(isinstance(a, ast.Starred) for a in c.args)
            kws, dstar = [], False
            for k in c.keywords:
                if k.arg is not None:
                    kws.append(k.arg)
                else:
                    lk = literal_keys(k.value)
                    if lk is None:
                        dstar = True
                    else:
                        kws += [x for x in lk if isinstance(x, str)]
            R.calls.append(((t[1], npos, kws, star, dstar), c, self.sc.mod, self.where))
            return
        # a method of an unknown object
        if isinstance(c.func, ast.Attribute):
            if isinstance(c.func.value, ast.Constant) and isinstance(c.func.value.value, str) and c.func.attr == "format":
                self.format(c)
                return
            for k in c.keywords:
                if k.arg:
                    R.unknown_kw.append((k, c, self.sc.mod, self.where))

    def format(self, c):
        self.R.count("formats")
        if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return
        n, keys = 0, set(k.arg for k in c.keywords)
        try:
            for _, f, spec, _ in string.Formatter().parse(c.func.value.value):
                for g in [f] + ([x[1] for x in string.Formatter().parse(spec)] if spec and "{" in spec else []):
                    if g is None:
                        continue
                    head = g.split(".")[0].split("[")[0]
                    if head == "":
                        n += 1
                        if n > len(c.args):
                            self.say("formats", c, f"format string has more fields than the {len(c.args)} arguments", "IndexError")
                            return
                    elif head.isdigit():
                        if int(head) >= len(c.args):
                            self.say("formats", c, f"format string refers to argument {head} of {len(c.args)}", "IndexError")
                            return
                    elif head not in keys:
                        self.say("formats", c, f"format string refers to {head!r}, which is not passed", "KeyError")
                        return
        except ValueError as e:
            self.say("formats", c, f"malformed format string: {e}", "ValueError")


def as_function(e):
    f = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Expr(e.body)], decorator_list=[])
    return f


def comp_scope(R, sc, e):
    f = ast.FunctionDef(name="<comprehension>", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[], decorator_list=[])
    s = Scope(R, sc.mod, f, None, None, sc, sc.main)
    s.comp = True
    for g in e.generators:
        s.local |= bindings([g.target])
    s.single = {}
    return s


def root(sc):
    while sc.outer is not None:
        sc = sc.outer
    return sc


def all_module(sc):
    while sc is not None:
        if sc.fn is not None and not getattr(sc, "comp", False):
            return False
        sc = sc.outer
    return True


def analyse(root_dir, pkg="pyotf"):
    R = Resolver(root_dir, pkg)
    done = set()
    for m in R.mods.values():
        R.later, R.later_cls = [], []
        sc = Scope(R, m, None, None)
        f = Flow(R, sc, "module", True)
        st = set()
        main = Scope(R, m, None, None, main=True)
        for s in m.tree.body:
            if s in m.main:
                g = Flow(R, main, "module", True)
                g.block(s.body, set(st))
            else:
                st = f.stmt(s, st)
                if st is None:
                    break
        # functions and classes, also nested ones
        todo = [(x, None, None) for x in R.later]
        ctodo = list(R.later_cls)
        R.later, R.later_cls = [], []
        while todo or ctodo:
            while ctodo:
                c, outer, where, st0 = ctodo.pop()
                csc = Scope(R, m, None, R.classes[c], None, outer if outer.fn is not None else None, outer.main)
                cf = Flow(R, csc, c.name, True)
                # the class body sees its own names, then the module's
                cf.block(c.body, set(st0))
                todo += [(x, R.classes[c], None) for x in R.later]
                ctodo += R.later_cls
                R.later, R.later_cls = [], []
            if not todo:
                break
            (fn, outer, where), cls, _ = todo.pop()
            name = (cls.name + "." if cls else "" if where == "module" else where + ".") + fn.name
            recvs = [None]
            if cls is not None:
                recvs = [k for k in [cls] + R.children(cls) if used_by(R, cls, fn, k)] or [cls]
                if len(recvs) > 1 and R.children(cls) and abstract(R, cls, fn):
                    recvs = recvs[1:]
            for k in recvs:
                o = outer if outer.fn is not None else None
                sc = Scope(R, m, fn, cls, k, o, outer.main)
                w = name if k in (None, cls) else f"{name} on {k.name}"
                fl = Flow(R, sc, w, True)
                fl.block(fn.body, set(params(fn)))
                R.count("scopes")
                R.scopes.add(f"{m.name}:{w}")
            inner, R.later = R.later, []
            seen = set()
            for x in inner:
                if id(x[0]) not in seen:
                    seen.add(id(x[0]))
                    todo.append((x, None, None))
            ctodo += R.later_cls
            R.later_cls = []
    order(R)
    return R


def used_by(R, cls, fn, k):
    """does a receiver of class k run this definition (directly or through super())?"""
    m = R.mro(k)
    for c in m:
        g = c.methods.get(fn.name)
        if g is fn:
            return True
        if g is not None:
            sup = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fn.name and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == ["super"] for n in ast.walk(g))
            if not sup:
                return False
    return False


def abstract(R, cls, fn):
    """a base class whose methods rely on what the derived classes define"""
    return not any(instantiated(R, cls))


def instantiated(R, cls):
    for m in R.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == cls.name:
                yield True


def order(R):
    """imports of each module into a fresh interpreter, in program order"""
    for start in R.mods:
        state = {}

        def load(name, state=state):
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                p = ".".join(parts[:i])
                if p in R.mods and p not in state:
                    state[p] = set()
                    run(R.mods[p], [s for s in R.mods[p].tree.body if s not in R.mods[p].main], state)
                    state[p] = None  # complete

        def run(m, body, state):
            for s in body:
                if isinstance(s, ast.ImportFrom):
                    src = source(m, s)
                    if src in R.mods:
                        load(src)
                        for a in s.names:
                            if src + "." + a.name in R.mods:
                                load(src + "." + a.name)
                            elif state[src] is not None and a.name != "*" and a.name not in state[src] and a.name in R.mods[src].names:
                                R.bad("imports", s, m, "module", f"circular import: {src} has not defined {a.name} yet when {start} is imported first")
                                return
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.name in R.mods:
                            load(a.name)
                if state.get(m.name) is not None:
                    state[m.name] |= bindings([s])

        load(start)
        R.count("imports")


def settle(R):
    """put the questions to the libraries and turn the answers into findings"""
    uniq = [c[0] for c in R.calls]
    ans = api.ask(R.imports, list(R.chains), uniq)
    for name, uses in R.imports.items():
        if ans["imports"].get(name) is False:
            for s, mod, where, quiet, sc in uses:
                if not quiet & {"*", "ImportError", "ModuleNotFoundError"} and not root(sc).main:
                    R.bad("imports", s, mod, where, f"module {name} is not installed or does not exist")
    for ch, uses in R.chains.items():
        ok, what = ans["chains"][".".join(ch)]
        if ok is False:
            for rule, node, mod, where in uses:
                R.bad(rule, node, mod, where, f"{'.'.join(ch)} does not exist in the installed libraries")
    for i, (q, node, mod, where) in enumerate(R.calls):
        a = ans["calls"][str(i)]
        if isinstance(a, str):
            R.bad("calls", node, mod, where, f"call of {'.'.join(q[0])}: {a}")
    vocab = R.vocab | set(ans["vocab"])
    kws = R.kwvocab | set(ans["kws"]) | vocab
    for e, mod, where in R.unknown_attr:
        if e.attr not in vocab:
            R.bad("attributes", e, mod, where, f"no class of the package or of a library it imports has an attribute {e.attr!r}")
    for k, c, mod, where in R.unknown_kw:
        if k.arg not in kws:
            R.bad("calls", c, mod, where, f"no function of the package or of a library it imports has a parameter {k.arg!r}")
    # declared requirements
    req = os.path.join(R.root, "requirements.txt")
    if os.path.exists(req):
        names = set()
        for line in open(req):
            w = line.split("#")[0].strip()
            for ch in "<>=!~[; ":
                w = w.split(ch)[0]
            if w:
                names.add(w.lower().replace("_", "-"))
        for name, uses in R.imports.items():
            r = name.split(".")[0]
            if api.stdlib(r):
                continue
            R.count("requirements")
            d = DIST.get(r, r).lower().replace("_", "-")
            if d not in names:
                for s, mod, where, quiet, sc in uses:
                    if not quiet & {"*", "ImportError", "ModuleNotFoundError"} and not root(sc).main:
                        R.bad("requirements", s, mod, where, f"{r} is imported but not among the declared requirements")
    return R
