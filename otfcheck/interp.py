"""Abstract interpreter for the Python subset the analysed package is written in.

The interpreter evaluates the package's *syntax trees* over the abstract domain of values.py.
Branches whose condition is not decided by the abstract state are analysed on both sides and
the resulting states are joined; loops of unknown length are analysed to a fixpoint.
"""
import ast
import os

from . import poly as P
from .poly import P1, ZERO, F, as_poly, mk_atom, Poly
from .state import *
from .values import *

BUILTIN_EXC = {
    n: getattr(__builtins__, n) if not isinstance(__builtins__, dict) else __builtins__[n]
    for n in (
        "BaseException Exception ArithmeticError AssertionError AttributeError BufferError EOFError "
        "FileNotFoundError FloatingPointError GeneratorExit ImportError IndexError KeyError KeyboardInterrupt "
        "LookupError MemoryError ModuleNotFoundError NameError NotImplementedError OSError OverflowError "
        "PermissionError RecursionError ReferenceError RuntimeError StopIteration SyntaxError SystemError "
        "SystemExit TypeError UnboundLocalError UnicodeError ValueError ZeroDivisionError IOError "
        "Warning UserWarning DeprecationWarning RuntimeWarning FutureWarning PendingDeprecationWarning"
    ).split()
}


class Dead(Exception):
    """The current abstract path has no normal continuation."""


class Event:
    def __init__(self, kind, msg, loc, data=None, stack=()):
        self.kind, self.msg, self.loc, self.data, self.stack = kind, msg, loc, data, stack

    def key(self):
        return (self.kind, self.msg, self.loc)

    def __repr__(self):
        return f"{self.kind}: {self.msg} @ {fmt_loc(self.loc)}"


def fmt_loc(loc):
    if not loc:
        return "?"
    return f"{loc[0]}:{loc[2]} in {loc[1]}"


class Frame:
    def __init__(self, func, module, scopes, locals_, cls=None, self_=None):
        self.func, self.module, self.scopes, self.locals = func, module, scopes, locals_
        self.cls, self.self_ = cls, self_
        self.returns = []
        self.loops = []
        self.yields = None
        self.yield_hook = None
        self.globals_decl = set()
        self.nonlocals_decl = set()
        self.node = None
        self.comp_depth = 0


def num(x, pt=None, unit=F(0)):
    """Concrete python number -> AV."""
    if isinstance(x, bool):
        return AV((), "b", F(0), as_poly(int(x)), pt="bool")
    if isinstance(x, int):
        return AV((), "i", ANY if x == 0 else unit, as_poly(x), pt="int")
    if isinstance(x, float):
        if x != x:
            return AV((), "f", ANY, as_poly(mk_atom("nan", ())), pt="float")
        if x in (float("inf"), float("-inf")):
            t = as_poly(mk_atom("inf", (), pos=True))
            return AV((), "f", ANY, t if x > 0 else -t, pt="float")
        return AV((), "f", ANY if x == 0 else unit, as_poly(x), pt="float")
    if isinstance(x, complex):
        return AV((), "c", ANY if x == 0 else unit, as_poly(x), pt="complex")
    if isinstance(x, Fraction):
        return AV((), "i" if x.denominator == 1 else "f", unit, as_poly(x), pt="int" if x.denominator == 1 else "float")
    raise TypeError(x)


def intv(p):
    return AV((), "i", F(0), as_poly(p), pt="int")


def boolv(b):
    return num(bool(b))


def indv(p):
    return AV((), "b", F(0), as_poly(p), pt="bool")


from fractions import Fraction  # noqa: E402


def is_scalar(v):
    return isinstance(v, AV) and v.shape == ()


TREES = {}  # parsed sources, shared by the machines of one run


class Interp:
    MAX_DEPTH = 120

    def __init__(self, root, package, world=None):
        from . import npmodel, pymodel

        self.root = root  # directory holding the package directory
        self.package = package
        self.st = State()
        self.ids = itertools.count(1)
        self.sinks = [[]]
        self.events = []
        self._evkeys = set()
        self.frames = []
        self.modules = {}
        self.sources = {}
        self.excs = {}
        self.np = npmodel
        self.py = pymodel
        self.builtins = pymodel.make_builtins(self)
        self.funcs_seen = set()
        self.calls = 0
        self.loopcount = itertools.count(1)
        self.ext_refs = {}
        self.cache_hooks = None
        self.ub = {}  # loop symbol atom -> upper bound poly

    # ------------------------------------------------------------ diagnostics
    def loc(self):
        for fr in reversed(self.frames):
            if fr.node is not None:
                return (fr.module.relpath, fr.func.qual if fr.func else "<module>", getattr(fr.node, "lineno", 0))
        return None

    def stack(self):
        out = []
        for fr in self.frames:
            if fr.node is not None:
                out.append((fr.module.relpath, fr.func.qual if fr.func else "<module>", getattr(fr.node, "lineno", 0)))
        return tuple(out)

    def event(self, kind, msg, data=None):
        e = Event(kind, msg, self.loc(), data, self.stack())
        k = e.key()
        if kind != "ext" and k in self._evkeys:
            return
        self._evkeys.add(k)
        self.events.append(e)

    def unmodelled(self, what):
        self.event("unmodelled", what)
        return Top(what)

    # ------------------------------------------------------------ exceptions
    def exc_class(self, name):
        c = self.excs.get(name)
        if c is None:
            t = BUILTIN_EXC[name]
            bases = tuple(self.exc_class(b.__name__) for b in t.__bases__ if b.__name__ in BUILTIN_EXC)
            c = ClassV(t.__name__, bases, None, None, builtin=t)
            self.excs[name] = c
        return c

    def mkexc(self, name, *args, implicit=True):
        e = ExcV(self.exc_class(name), args, self.loc(), implicit)
        e.stack = self.stack()
        return e

    def throw(self, name, *args, implicit=True):
        self.raise_exc(self.mkexc(name, *args, implicit=implicit))

    def raise_exc(self, e):
        if not hasattr(e, "stack"):
            e.stack = self.stack()
        self.sinks[-1].append((e, self.st))
        raise Dead()

    def maybe_throw(self, c, name, *args):
        """Raise where indicator c holds; continue where it does not."""
        k = self.known(c)
        if k is True:
            self.throw(name, *args)
        if k is False:
            return
        self.sinks[-1].append((self.mkexc(name, *args), self.st.assume(c, True)))
        self.st = self.st.assume(c, False)

    def type_error(self, msg, *vals):
        """TypeError of an operation on values this model knows exactly; for anything
        it only knows approximately the outcome is open."""
        for v in vals:
            if not self.definite(v):
                raise NotImpl(f"{msg}, for a value known only approximately ({type(v).__name__})")
        self.throw("TypeError", msg)

    def definite(self, v):
        v = self.res(v)
        if isinstance(v, (ListRef, SetRef)):
            return isinstance(self.py.resolve_items(self, self.cell(v).items), tuple)
        if isinstance(v, tuple):
            return all(self.definite(x) for x in v)
        if isinstance(v, DictRef):
            return not any(isinstance(x, MaybeV) for x in self.cell(v).d.values())
        return v is None or isinstance(
            v, (str, AV, Arr, StrV, Func, Bound, ClassV, ModuleV, Obj, RangeV, PartialV, LruFunc, bool, int, float)
        )

    def open_items(self, v):
        """The CondItems of a list whose items differ between paths not yet told apart."""
        if isinstance(v, (ListRef, SetRef)):
            it = self.py.resolve_items(self, self.cell(v).items)
            if isinstance(it, CondItems):
                return it
        return None

    def split_items(self, v, fn):
        """fn() under each alternative for the items of the list v."""
        it = self.open_items(v)
        if it is None:
            return fn()
        again = lambda: self.split_items(v, fn)
        return self.cond_fork(it.c, again, again)

    # ------------------------------------------------------------ facts
    def known(self, c):
        return known(self.st.facts, c)

    def cond_fork(self, c, ft, ff):
        """Evaluate ft() where c holds and ff() elsewhere; join states and results."""
        k = self.known(c)
        if k is True:
            return ft()
        if k is False:
            return ff()
        s0 = self.st
        outs = []
        for t, f in ((True, ft), (False, ff)):
            self.st = s0.assume(c, t)
            try:
                v = f()
                outs.append((v, self.st))
            except Dead:
                pass
        if not outs:
            raise Dead()
        v, self.st = self.join_outcomes(outs)
        return v

    def res(self, v):
        """Resolve conditional values decided by the current facts."""
        while isinstance(v, Cond):
            k = self.known(v.c)
            if k is None:
                return v
            v = v.a if k else v.b
        return v

    def dist(self, vals, fn):
        """Call fn(vals) distributing over Cond values."""
        vals = [self.res(v) for v in vals]
        for i, v in enumerate(vals):
            if isinstance(v, Cond):
                return self.cond_fork(
                    v.c,
                    lambda: self.dist(vals[:i] + [v.a] + vals[i + 1:], fn),
                    lambda: self.dist(vals[:i] + [v.b] + vals[i + 1:], fn),
                )
        return fn(vals)

    # ------------------------------------------------------------ joins
    def join_outcomes(self, outs):
        """outs: list of (value, State).  Returns joined (value, State)."""
        outs = list(outs)
        while len(outs) > 1:
            best = None
            for i in range(len(outs) - 1):
                for j in range(i + 1, len(outs)):
                    n = self.common_prefix(outs[i][1].path, outs[j][1].path)
                    if best is None or n > best[0]:
                        best = (n, i, j)
            n, i, j = best
            b = outs.pop(j)
            a = outs.pop(i)
            outs.insert(i, self.join2(a, b, n))
        return outs[0]

    @staticmethod
    def common_prefix(p, q):
        n = 0
        for x, y in zip(p, q):
            if x[0] is not y[0] and x[0] != y[0] or x[1] != y[1]:
                break
            n += 1
        return n

    def join2(self, a, b, n):
        va, sa = a
        vb, sb = b
        pa, pb = sa.path[n:], sb.path[n:]
        c = None
        if pa and pb and pa[0][0] == pb[0][0]:
            c = pa[0][0] if pa[0][1] else P1 - pa[0][0]
        elif pa and not pb:
            c = path_ind(pa)
        elif pb and not pa:
            c = P1 - path_ind(pb)
        elif not pa and not pb:
            c = fresh_ind("join")
        else:
            c = path_ind(pa)
        prefix = sa.path[:n]
        facts = {}
        if prefix:
            for cc, t in prefix:
                add_fact(facts, cc, t)
        # keep facts common to both sides
        for k, t in sa.facts.items():
            if sb.facts.get(k) == t:
                facts[k] = t
        heap = {}
        ha, hb = sa.heap, sb.heap
        for k, ca in ha.items():
            cb = hb.get(k)
            if cb is None or ca is cb:
                heap[k] = ca
            else:
                heap[k] = self.join_cell(c, ca, cb, sa, sb)
        for k, cb in hb.items():
            if k not in ha:
                heap[k] = cb
        st = State(heap, prefix, facts)
        v = self.join_val(c, va, vb)
        return v, st

    def join_map(self, c, a, b):
        out = {}
        for k, va in a.items():
            if k in b:
                vb = b[k]
                out[k] = va if va is vb else self.join_slot(c, va, vb)
            else:
                out[k] = maybe(va, c)
        for k, vb in b.items():
            if k not in a:
                out[k] = maybe(vb, P1 - c)
        return out

    def join_slot(self, c, a, b):
        if isinstance(a, MaybeV) or isinstance(b, MaybeV):
            ca = a.c if isinstance(a, MaybeV) else P1
            cb = b.c if isinstance(b, MaybeV) else P1
            va = a.v if isinstance(a, MaybeV) else a
            vb = b.v if isinstance(b, MaybeV) else b
            pres = c * ca + (P1 - c) * cb
            v = self.join_val(c, va, vb)
            return v if pres == P1 else MaybeV(v, pres)
        return self.join_val(c, a, b)

    def join_cell(self, c, a, b, sa=None, sb=None):
        if type(a) is not type(b):
            raise NotImpl("joining different heap cells")
        if isinstance(a, EnvCell):
            return EnvCell(self.join_map(c, a.vars, b.vars), a.owner)
        if isinstance(a, ObjCell):
            return ObjCell(a.cls, self.join_map(c, a.fields, b.fields), a.owner)
        if isinstance(a, DictCell):
            return DictCell(self.join_map(c, a.d, b.d), a.owner)
        if isinstance(a, ListCell):
            if isinstance(a.items, tuple) and isinstance(b.items, tuple) and len(a.items) == len(b.items):
                return ListCell(tuple(self.join_val(c, x, y) for x, y in zip(a.items, b.items)), a.owner)
            if a.items == b.items:
                return a
            return ListCell(CondItems(c, a.items, b.items), a.owner)
        if isinstance(a, SetCell):
            if a.items == b.items:
                return a
            return SetCell(CondItems(c, a.items, b.items), a.owner)
        if isinstance(a, ArrCell):
            if a.base is not None and b.base == a.base and a.derive is b.derive:
                # both are (possibly stale) snapshots of the same view
                if a.av == b.av:
                    return ArrCell(a.av, a.owner, a.base, a.derive, a.putback, a.src if a.src is b.src else None)
                return ArrCell(self.join_av(c, a.av, b.av), a.owner, a.base, a.derive, a.putback, None)
            if a.av == b.av:
                return ArrCell(a.av, a.owner)
            v = self.join_av(c, a.av, b.av)
            if isinstance(v, AV):
                return ArrCell(v, a.owner)
            raise NotImpl("in-place change of an array's shape on one path")
        if isinstance(a, IterCell):
            if a.items == b.items and a.pos == b.pos:
                return a
            raise NotImpl("joining iterators")
        raise NotImpl("join cell")

    def join_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, AV) and isinstance(b, AV):
            if a == b:
                return a
            r = self.join_av(c, a, b)
            if r is not None:
                return r
            return Cond(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(self.join_val(c, a.a, b.a), self.join_val(c, a.b, b.b), self.join_val(c, a.c, b.c))
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, Cond) and a.c == c:
            a = a.a
        if isinstance(b, Cond) and b.c == c:
            b = b.b
        return Cond(c, a, b)

    def join_av(self, c, a, b):
        if a.shape != b.shape or a.restr != b.restr:
            return None
        pt = a.pt
        if a.pt != b.pt:
            if not (a.kind == b.kind and "nd" in (a.pt, b.pt) and a.shape == ()):
                return None
            pt = "nd"
        unit = self.join_unit(a.unit, b.unit, "values merged at a branch")
        lay = tuple(join_lay(x, y) for x, y in zip(a.lay, b.lay))
        kind = a.kind if "bifc".index(a.kind) >= "bifc".index(b.kind) else b.kind
        if a.elems is not None or b.elems is not None:
            ea, eb = self.np.to_elems(self, a), self.np.to_elems(self, b)
            if ea is not None and eb is not None:
                el = [self.join_av(c, x, y) for x, y in zip(ea, eb)]
                if all(e is not None for e in el):
                    return AV(a.shape, kind, unit, None, lay=lay, elems=tuple(el), restr=a.restr, pt=pt)
        return AV(a.shape, kind, unit, P.fn_ite(c, a.term, b.term), lay=lay, restr=a.restr, pt=pt)

    def join_unit(self, u, v, what):
        if u == v:
            return u
        if u is ANY:
            return v
        if v is ANY:
            return u
        if u is None or v is None:
            return None
        self.event("unit", f"{what} have different length dimensions (L^{u} and L^{v})")
        return None

    # ------------------------------------------------------------ heap
    def alloc(self, cell):
        i = next(self.ids)
        self.st.heap[i] = cell
        return i

    def cell(self, ref):
        return self.st.heap[ref.id]

    def set_cell(self, ref, cell):
        self.st.heap[ref.id] = cell

    def check_owner(self, cell, what):
        if cell.owner:
            self.event("mutate", f"{what} of {cell.owner}", data=cell.owner)

    def new_list(self, items):
        return ListRef(self.alloc(ListCell(tuple(items))))

    def new_dict(self, d):
        return DictRef(self.alloc(DictCell(dict(d))))

    def new_set(self, items):
        out = []
        for x in items:
            if not any(self.same_key(x, y) for y in out):
                out.append(x)
        return SetRef(self.alloc(SetCell(tuple(out))))

    @staticmethod
    def same_key(a, b):
        return type(a) is type(b) and a == b

    def new_arr(self, av, owner=None):
        assert isinstance(av, AV), av
        return Arr(self.alloc(ArrCell(av.but(pt="nd") if av.pt != "nd" else av, owner)))

    def arr(self, v):
        """AV of an array reference (re-deriving stale views) or scalar AV."""
        if isinstance(v, AV):
            return v
        c = self.cell(v)
        if c.base is not None:
            bav = self.arr(c.base)
            if bav is not c.src:
                av = c.derive(self, bav)
                c = ArrCell(av, c.owner, c.base, c.derive, c.putback, bav)
                self.set_cell(v, c)
        return c.av

    def view(self, ref, derive, putback=None):
        """New array ref that is a view of ref."""
        bav = self.arr(ref)
        av = derive(self, bav)
        if isinstance(ref, AV):
            return self.new_arr(av)
        return Arr(self.alloc(ArrCell(av, None, ref, derive, putback, bav)))

    def write_arr(self, ref, av, what="in-place write"):
        """In-place replacement of the contents of ref."""
        if isinstance(ref, AV):
            raise NotImpl("in-place write to scalar")
        c = self.cell(ref)
        self.check_owner(c, what)
        if c.base is not None:
            bav = self.arr(c.base)
            if c.putback is not None:
                nb = c.putback(self, bav, av)
            else:
                nb = None
            if nb is None:
                nb = self.np.opaque_like(bav, "writeback", bav.term, av.term)
            self.write_arr(c.base, nb, what)
            self.set_cell(ref, ArrCell(av, c.owner, c.base, c.derive, c.putback, self.arr(c.base)))
        else:
            self.set_cell(ref, ArrCell(av, c.owner))

    def owner_of(self, ref):
        c = self.cell(ref)
        if c.owner:
            return c.owner
        if getattr(c, "base", None) is not None:
            return self.owner_of(c.base)
        return None

    # ------------------------------------------------------------ modules
    def load_module(self, name, path=None):
        m = self.modules.get(name)
        if m is not None:
            return m
        parts = name.split(".")
        base = os.path.join(self.root, *parts)
        ref = path is not None  # a reference file of the checker, not of the program
        if not ref:
            path = os.path.join(base, "__init__.py") if os.path.isdir(base) else base + ".py"
        m = ModuleV(name, path)
        m.relpath = os.path.basename(path) if ref else os.path.relpath(path, self.root)
        m.is_pkg = not ref and os.path.isdir(base)
        src = open(path, encoding="utf-8").read()
        self.sources[name] = src
        tk = (path, src)
        if tk not in TREES:
            TREES[tk] = ast.parse(src, path)
        m.tree = TREES[tk]
        m.env = self.alloc(EnvCell({"__name__": name, "__file__": StrV([ExtObj("__file__", uid=name)]), "__doc__": ast.get_docstring(m.tree, clean=False)}))
        self.modules[name] = m
        if parts[-1] == "_version":
            # generated versioneer file: version discovery from git / archive keywords is not analysed
            def get_versions(I, args, kwargs):
                return I.new_dict({k: StrV([ExtObj("version_string", uid=k)])
                                   for k in ("version", "full-revisionid", "dirty", "error", "date")})

            self.st.heap[m.env].vars["get_versions"] = Builtin("get_versions", get_versions)
            return m
        fr = Frame(None, m, [m.env], None)
        self.frames.append(fr)
        try:
            self.exec_block(m.tree.body)
        finally:
            self.frames.pop()
        return m

    def is_project(self, name):
        if name.split(".")[0] != self.package:
            return False
        parts = name.split(".")
        base = os.path.join(self.root, *parts)
        return os.path.isdir(base) or os.path.isfile(base + ".py")

    def import_module(self, name):
        if self.is_project(name):
            if "." in name:
                self.import_module(name.rsplit(".", 1)[0])
            return self.load_module(name)
        if name.split(".")[0] == self.package:
            self.throw("ModuleNotFoundError", name)
        if name.startswith("otfcheck_spec."):  # one reference file of the checker uses another
            return self.load_module(name, os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", name.split(".")[1] + ".py"))
        return Ext(name)

    def st_Import(self, n):
        for a in n.names:
            self.import_module(a.name)
            self.note_ext(a.name)
            if a.asname:
                self.assign_name(a.asname, self.import_module(a.name))
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, self.import_module(top))

    def st_ImportFrom(self, n):
        fr = self.frames[-1]
        base = n.module or ""
        if n.level:
            pk = fr.module.name if fr.module.is_pkg else fr.module.name.rsplit(".", 1)[0]
            for _ in range(n.level - 1):
                pk = pk.rsplit(".", 1)[0]
            base = pk + ("." + base if base else "")
        if base == "__future__":
            return
        mod = self.import_module(base)
        for a in n.names:
            if a.name == "*":
                if isinstance(mod, ModuleV):
                    vars_ = self.st.heap[mod.env].vars
                    names = vars_.get("__all__")
                    for k, v in list(vars_.items()):
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                else:
                    self.unmodelled(f"from {base} import *")
                continue
            if isinstance(mod, ModuleV):
                vars_ = self.st.heap[mod.env].vars
                if a.name in vars_:
                    v = vars_[a.name]
                elif self.is_project(base + "." + a.name):
                    v = self.load_module(base + "." + a.name)
                else:
                    self.throw("ImportError", f"cannot import name {a.name!r} from {base}")
            else:
                v = self.ext_attr(mod, a.name)
            self.assign_name(a.asname or a.name, v)

    def note_ext(self, path):
        if path not in self.ext_refs:
            self.ext_refs[path] = self.loc()

    def ext_attr(self, ext, name):
        path = ext.path + "." + name
        self.note_ext(path)
        return self.np.ext_value(self, path)

    # ------------------------------------------------------------ names
    def env_get(self, eid, name):
        return self.st.heap[eid].vars.get(name, _MISSING)

    def lookup(self, name):
        fr = self.frames[-1]
        mod_env = fr.module.env
        skip_local = name in fr.globals_decl
        if not skip_local:
            for eid in fr.scopes:
                v = self.env_get(eid, name)
                if v is not _MISSING:
                    return self.slot_read(v, "name", name)
            if fr.locals is not None and name in fr.locals:
                self.throw("UnboundLocalError", name)
        v = self.env_get(mod_env, name)
        if v is not _MISSING:
            return self.slot_read(v, "name", name)
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_EXC:
            return self.exc_class(name)
        self.throw("NameError", name)

    def slot_read(self, v, what, name):
        v = self.res(v)
        if isinstance(v, MaybeV):
            k = self.known(v.c)
            if k is True:
                return self.res(v.v)
            exc = {"name": "UnboundLocalError", "attr": "AttributeError", "key": "KeyError"}[what]
            self.maybe_throw(P1 - v.c, exc, name)
            return self.res(v.v)
        return v

    def assign_name(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            self.set_env(fr.module.env, name, v)
            return
        if name in fr.nonlocals_decl:
            for eid in fr.scopes[1:]:
                if name in self.st.heap[eid].vars:
                    self.set_env(eid, name, v)
                    return
        self.set_env(fr.scopes[fr.comp_depth and 0 or 0], name, v)

    def set_env(self, eid, name, v):
        c = self.st.heap[eid]
        if c.owner:
            self.event("global-write", f"assignment to {c.owner} name {name!r}")
        d = dict(c.vars)
        d[name] = v
        self.st.heap[eid] = EnvCell(d, c.owner)

    def del_env(self, eid, name):
        c = self.st.heap[eid]
        d = dict(c.vars)
        d.pop(name, None)
        self.st.heap[eid] = EnvCell(d, c.owner)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.frames[-1].node = s
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise NotImpl(f"statement {type(s).__name__} at {fmt_loc(self.loc())}")
        m(s)

    def st_Expr(self, n):
        self.ev(n.value)

    def st_Pass(self, n):
        pass

    def st_Global(self, n):
        self.frames[-1].globals_decl |= set(n.names)

    def st_Nonlocal(self, n):
        self.frames[-1].nonlocals_decl |= set(n.names)

    def st_Return(self, n):
        v = None if n.value is None else self.ev(n.value)
        fr = self.frames[-1]
        fr.returns.append((v, self.st))
        raise Dead()

    def st_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def st_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def st_AugAssign(self, n):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev_Name(t)
            v = self.ev(n.value)
            self.assign(t, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(n.value)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.ev_index(t.slice)
            cur = self.getitem(o, ix)
            v = self.ev(n.value)
            self.setitem(o, ix, self.inplace(op, cur, v))
        else:
            raise NotImpl("augassign target")

    def inplace(self, op, cur, v):
        cur = self.res(cur)
        if isinstance(cur, Cond):
            return self.cond_fork(cur.c, lambda: self.inplace(op, cur.a, v), lambda: self.inplace(op, cur.b, v))
        if isinstance(cur, Arr):
            v = self.res(v)
            if isinstance(v, Cond):
                return self.cond_fork(v.c, lambda: self.inplace(op, cur, v.a), lambda: self.inplace(op, cur, v.b))
            a = self.arr(cur)
            r = self.binop(op, cur, v)
            if not isinstance(r, (AV, Arr)):
                return r
            rv = self.arr(r)
            self.np.inplace_store(self, cur, a, rv, f"augmented assignment ({op})")
            return cur
        if isinstance(cur, ListRef) and op == "Add":
            self.py.list_extend(self, cur, v)
            return cur
        if isinstance(cur, SetRef) and op == "BitOr":
            self.py.set_update(self, cur, [v])
            return cur
        if isinstance(cur, DictRef) and op == "BitOr":
            self.py.dict_update(self, cur, [v], {})
            return cur
        if isinstance(cur, Obj):
            m = self.class_lookup(self.cell(cur).cls, INPLACE_DUNDER.get(op, ""))
            if m is not None:
                return self.call(self.bind(m, cur), [v], {})
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise NotImpl("assign target")

    def unpack(self, elts, v):
        v = self.res(v)
        items = self.to_items(v)
        if items is None:
            if isinstance(v, Top):
                for t in elts:
                    self.assign(t, Top("unpack"))
                return
            raise NotImpl(f"unpacking a value of unknown length ({v!r:.80})")
        star = [i for i, t in enumerate(elts) if isinstance(t, ast.Starred)]
        if star:
            i = star[0]
            k = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.throw("ValueError", "not enough values to unpack")
            for t, x in zip(elts[:i], items):
                self.assign(t, x)
            self.assign(elts[i].value, self.new_list(items[i:len(items) - k]))
            for t, x in zip(elts[i + 1:], items[len(items) - k:]):
                self.assign(t, x)
            return
        if len(items) != len(elts):
            self.throw("ValueError", f"cannot unpack {len(items)} values into {len(elts)} names")
        for t, x in zip(elts, items):
            self.assign(t, x)

    def st_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                fr = self.frames[-1]
                eid = fr.module.env if t.id in fr.globals_decl else fr.scopes[0]
                if t.id not in self.st.heap[eid].vars:
                    self.throw("NameError", t.id)
                self.del_env(eid, t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                self.delitem(o, self.ev_index(t.slice))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    self.st_Delete(ast.Delete(targets=[x]))
            else:
                raise NotImpl("del target")

    # -- branching
    def st_If(self, n):
        c = self.test(n.test)
        k = self.known(c)
        if k is True:
            return self.exec_block(n.body)
        if k is False:
            return self.exec_block(n.orelse)
        self.fork_blocks(c, n.body, n.orelse)

    def fork_blocks(self, c, body, orelse):
        s0 = self.st
        outs = []
        node = self.frames[-1].node
        for t, blk in ((True, body), (False, orelse)):
            self.st = s0.assume(c, t)
            try:
                self.exec_block(blk)
                outs.append((None, self.st))
            except Dead:
                pass
            self.frames[-1].node = node
        if not outs:
            raise Dead()
        _, self.st = self.join_outcomes(outs)

    def test(self, node):
        """Evaluate an expression as a condition -> indicator Poly."""
        if isinstance(node, ast.BoolOp):
            vals = node.values
            return self._test_chain(vals, isinstance(node.op, ast.And))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return P.ind_not(self.test(node.operand))
        return self.truth(self.ev(node))

    def _test_chain(self, vals, is_and):
        c = self.test(vals[0])
        if len(vals) == 1:
            return c
        k = self.known(c)
        if k is not None:
            if k != is_and:
                return P1 if k else ZERO
            return self._test_chain(vals[1:], is_and)
        # evaluate the rest only where it is reached; side effects are joined
        s0 = self.st
        self.st = s0.assume(c, is_and)
        try:
            r = self._test_chain(vals[1:], is_and)
            s1 = self.st
        except Dead:
            self.st = s0.assume(c, not is_and)
            return ZERO if is_and else P1
        s2 = s0.assume(c, not is_and)
        _, self.st = self.join_outcomes([(None, s1), (None, s2)] if is_and else [(None, s2), (None, s1)])
        return c * r if is_and else P.ind_or(c, r)

    def truth(self, v):
        v = self.res(v)
        if isinstance(v, Cond):
            return self.cond_fork_ind(v)
        if isinstance(v, Arr):
            v = self.arr(v)
            if v.shape != () and not all(s == P1 for s in v.shape):
                n = P1
                for s in v.shape:
                    n = n * s
                self.throw("ValueError", "truth value of an array is ambiguous")
            if v.shape != ():
                v = v.but(shape=(), lay=())
        if isinstance(v, AV):
            if v.shape not in ((), None):
                self.throw("ValueError", "truth value of an array is ambiguous")
            if v.kind == "b":
                return v.term
            if has_nan(v.term):
                return P1
            return P.ind_not(P.mk_ind("eq", v.term)) if P.sign(v.term) is None else as_poly(int(P.sign(v.term) != 0))
        if v is None:
            return ZERO
        if isinstance(v, (str, tuple, bytes)):
            return as_poly(int(bool(v)))
        if isinstance(v, StrV):
            if any(isinstance(p, str) and p for p in v.parts):
                return P1
            return fresh_ind("str")
        if isinstance(v, (ListRef, SetRef)):
            it = self.cell(v).items
            if isinstance(it, tuple):
                return as_poly(int(bool(it)))
            return fresh_ind("len")
        if isinstance(v, DictRef):
            d = self.cell(v).d
            if any(not isinstance(x, MaybeV) for x in d.values()):
                return P1
            if not d:
                return ZERO
            return fresh_ind("len")
        if isinstance(v, Obj):
            m = self.class_lookup(self.cell(v).cls, "__bool__")
            if m is not None:
                return self.truth(self.call(self.bind(m, v), [], {}))
            m = self.class_lookup(self.cell(v).cls, "__len__")
            if m is not None:
                return self.truth(self.call(self.bind(m, v), [], {}))
            return P1
        if isinstance(v, (Func, Bound, Builtin, ClassV, ModuleV, Ext, ExtMeth, SliceV, ExcV)):
            return P1
        if isinstance(v, RangeV):
            return P.mk_ind("gt", (v.b - v.a) * (1 if not P.sign(v.c) == -1 else -1))
        if isinstance(v, SymSeq):
            return P.mk_ind("gt", v.length)
        if isinstance(v, ExtObj):
            return as_poly(mk_atom("ind", ("b", f"ext:{v.path}:{v.uid}"), nonneg=True, integer=True))
        return fresh_ind("top")

    def cond_fork_ind(self, v):
        a = self.truth_under(v.c, True, v.a)
        b = self.truth_under(v.c, False, v.b)
        return v.c * a + (P1 - v.c) * b

    def truth_under(self, c, t, v):
        s0 = self.st
        self.st = s0.assume(c, t)
        try:
            return self.truth(v)
        finally:
            self.st = s0

    def st_Assert(self, n):
        c = self.test(n.test)
        k = self.known(c)
        if k is True:
            return
        s0 = self.st
        self.st = s0.assume(c, False) if k is None else s0
        try:
            args = [self.ev(n.msg)] if n.msg is not None else []
            self.raise_exc(ExcV(self.exc_class("AssertionError"), tuple(args), self.loc(), False))
        except Dead:
            pass
        if k is False:
            raise Dead()
        self.st = s0.assume(c, True)

    def st_Raise(self, n):
        if n.exc is None:
            cur = getattr(self.frames[-1], "handling", None)
            if cur:
                self.raise_exc(cur[-1])
            self.throw("RuntimeError", "No active exception to reraise")
        e = self.ev(n.exc)
        if n.cause is not None:
            self.ev(n.cause)
        self.raise_value(e)

    def raise_value(self, e):
        e = self.res(e)
        if isinstance(e, ClassV):
            e = self.call(e, [], {})
        if isinstance(e, Obj):
            c = self.cell(e)
            e2 = ExcV(c.cls, c.fields.get("args", ()), self.loc(), False)
            e2.obj = e
            e = e2
        if isinstance(e, (Ext, ExtObj)):
            e = ExcV(self.exc_class("Exception"), (), self.loc(), False)
        if not isinstance(e, ExcV):
            self.throw("TypeError", "exceptions must derive from BaseException")
        if e.loc is None or not e.implicit:
            e = self.copy_exc(e)
        self.raise_exc(e)

    def copy_exc(self, e):
        n = ExcV(e.cls, e.args, self.loc(), False)
        if hasattr(e, "obj"):
            n.obj = e.obj
        n.stack = self.stack()
        return n

    def st_Try(self, n):
        fr = self.frames[-1]
        if n.finalbody:
            return self._try_finally(n)
        self._try_except(n)

    def st_TryStar(self, n):
        self.st_Try(n)

    def _try_except(self, n):
        fr = self.frames[-1]
        sink = []
        self.sinks.append(sink)
        depth = len(self.frames)
        outs = []
        try:
            try:
                self.exec_block(n.body)
                normal = True
            except Dead:
                normal = False
        finally:
            self.sinks.pop()
            del self.frames[depth:]
        if normal:
            if n.orelse:
                try:
                    self.exec_block(n.orelse)
                    outs.append((None, self.st))
                except Dead:
                    pass
            else:
                outs.append((None, self.st))
        # dispatch exceptions
        pending = {}
        for e, st in sink:
            self.st = st
            hit = None
            for i, h in enumerate(n.handlers):
                if self.handler_matches(h, e):
                    hit = i
                    break
            if hit is None:
                self.sinks[-1].append((e, st))
            else:
                pending.setdefault(hit, []).append((e, st))
        for i, lst in sorted(pending.items()):
            h = n.handlers[i]
            exc = lst[0][0]
            _, self.st = self.join_outcomes([(None, st) for _, st in lst])
            if h.name:
                self.assign_name(h.name, exc)
            if not hasattr(fr, "handling"):
                fr.handling = []
            fr.handling.append(exc)
            try:
                self.exec_block(h.body)
                if h.name:
                    self.del_env(fr.scopes[0], h.name)
                outs.append((None, self.st))
            except Dead:
                pass
            finally:
                fr.handling.pop()
        if not outs:
            raise Dead()
        _, self.st = self.join_outcomes(outs)

    def handler_matches(self, h, e):
        if h.type is None:
            return True
        t = self.ev(h.type)
        return self.exc_matches(t, e)

    def exc_matches(self, t, e):
        if isinstance(t, tuple):
            return any(self.exc_matches(x, e) for x in t)
        if isinstance(t, ClassV):
            if t in e.cls.mro:
                return True
            if t.builtin is not None:
                return any(c.builtin is t.builtin for c in e.cls.mro if c.builtin is not None)
        return False

    def _try_finally(self, n):
        fr = self.frames[-1]
        nret = len(fr.returns)
        nl = [(len(b), len(c)) for b, c in fr.loops]
        sink = []
        self.sinks.append(sink)
        depth = len(self.frames)
        try:
            try:
                inner = ast.Try(body=n.body, handlers=n.handlers, orelse=n.orelse, finalbody=[])
                ast.copy_location(inner, n)
                if n.handlers or n.orelse:
                    self._try_except(inner)
                else:
                    self.exec_block(n.body)
                normal = [self.st]
            except Dead:
                normal = []
        finally:
            self.sinks.pop()
            del self.frames[depth:]

        def fin(st):
            self.st = st
            self.exec_block(n.finalbody)
            return self.st

        for i in range(nret, len(fr.returns)):
            pass
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        for v, st in rets:
            try:
                fr.returns.append((v, fin(st)))
            except Dead:
                pass
        for (b, c), (nb, nc) in zip(fr.loops, nl):
            for lst, k in ((b, nb), (c, nc)):
                tail = lst[k:]
                del lst[k:]
                for st in tail:
                    try:
                        lst.append(fin(st))
                    except Dead:
                        pass
        for e, st in sink:
            try:
                st2 = fin(st)
                self.sinks[-1].append((e, st2))
            except Dead:
                pass
        if not normal:
            raise Dead()
        self.st = normal[0]
        self.exec_block(n.finalbody)

    def st_With(self, n):
        self._with(n.items, n.body)

    def _with(self, items, body):
        if not items:
            return self.exec_block(body)
        it = items[0]
        cm = self.res(self.ev(it.context_expr))
        if isinstance(cm, SuppressCM):
            node = ast.Try(body=[ast.Pass()], handlers=[], orelse=[], finalbody=[])
            sink = []
            self.sinks.append(sink)
            depth = len(self.frames)
            outs = []
            try:
                try:
                    self._with(items[1:], body)
                    outs.append((None, self.st))
                except Dead:
                    pass
            finally:
                self.sinks.pop()
                del self.frames[depth:]
            for e, st in sink:
                if self.exc_matches(cm.types, e):
                    outs.append((None, st))
                else:
                    self.sinks[-1].append((e, st))
            if not outs:
                raise Dead()
            _, self.st = self.join_outcomes(outs)
            return
        if isinstance(cm, GenCM):
            # run the generator function with the with-body spliced in at the yield
            outer = self.frames[-1]
            used = []

            def hook(v):
                if used:
                    raise NotImpl("contextmanager yields twice")
                used.append(1)
                inner_frames = self.frames[:]
                idx = self.frames.index(outer)
                saved = self.frames[idx + 1:]
                del self.frames[idx + 1:]
                try:
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v)
                    self._with(items[1:], body)
                finally:
                    self.frames[idx + 1:] = saved
                return None

            self.call_func(cm.func, cm.args, cm.kwargs, yield_hook=hook)
            return
        if isinstance(cm, Obj):
            cls = self.cell(cm).cls
            ent = self.class_lookup(cls, "__enter__")
            ex = self.class_lookup(cls, "__exit__")
            if ent is None or ex is None:
                self.throw("TypeError", "not a context manager")
            v = self.call(self.bind(ent, cm), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            fr = self.frames[-1]
            sink = []
            nret = len(fr.returns)
            nl = [(len(b), len(c)) for b, c in fr.loops]
            self.sinks.append(sink)
            outs = []
            depth = len(self.frames)
            try:
                try:
                    self._with(items[1:], body)
                    outs.append(self.st)
                except Dead:
                    pass
            finally:
                self.sinks.pop()
                del self.frames[depth:]

            def leave(st, exc=None):
                self.st = st
                args = [None, None, None] if exc is None else [exc.cls, exc, ExtObj("traceback")]
                return self.call(self.bind(ex, cm), args, {})

            tail = fr.returns[nret:]
            del fr.returns[nret:]
            for v, st in tail:
                leave(st)
                fr.returns.append((v, self.st))
            for (b, c), (nb, nc) in zip(fr.loops, nl):
                for lst, k in ((b, nb), (c, nc)):
                    t2 = lst[k:]
                    del lst[k:]
                    for st in t2:
                        leave(st)
                        lst.append(self.st)
            res = []
            for st in outs:
                leave(st)
                res.append((None, self.st))
            for e, st in sink:
                r = leave(st, e)
                c = self.truth(r)
                k = self.known(c)
                if k is not False:
                    res.append((None, self.st if k else self.st.assume(c, True)))
                if k is not True:
                    self.sinks[-1].append((e, self.st if k is False else self.st.assume(c, False)))
            if not res:
                raise Dead()
            _, self.st = self.join_outcomes(res)
            return
        # external context manager (np.errstate, plt.style.context, warnings...): transparent
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ExtObj("ctx", uid=f"ctx@{getattr(it.context_expr, 'lineno', 0)}"))
        self._with(items[1:], body)

    def st_FunctionDef(self, n):
        f = self.make_func(n)
        v = f
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(n.name, v)

    def st_AsyncFunctionDef(self, n):
        raise NotImpl("async function")

    def make_func(self, n, name=None):
        fr = self.frames[-1]
        a = n.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.ev(d)
        scopes = [s for s in fr.scopes if s != fr.module.env and s not in getattr(fr, "class_scopes", ())]
        qual = (fr.qual_prefix if hasattr(fr, "qual_prefix") else "") + (name or getattr(n, "name", "<lambda>"))
        if fr.func is not None and not hasattr(fr, "qual_prefix"):
            qual = fr.func.qual + "." + qual
        f = Func(n, fr.module, scopes, cls=getattr(fr, "defining_class", None) or fr.cls, defaults=tuple(defaults), kwdefaults=kwd, name=name, qual=qual)
        li = getattr(n, "_otf_info", None)
        if li is None:
            li = n._otf_info = (func_locals(n), is_generator(n))
        f.locals, f.is_gen = li
        body = n.body if isinstance(n.body, list) else []
        f.attrs = {"__doc__": ast.get_docstring(n, clean=False) if isinstance(n, ast.FunctionDef) else None}
        return f

    def st_ClassDef(self, n):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in n.bases]
        bases = [self.res(b) for b in bases]
        bs = []
        for b in bases:
            if isinstance(b, ClassV):
                bs.append(b)
            elif isinstance(b, Ext):
                bs.append(ClassV(b.path, (self.builtins["object"],), None, None, builtin=b.path))
            elif isinstance(b, Builtin) and getattr(b, "cls", None) is not None:
                bs.append(b.cls)
            else:
                raise NotImpl(f"base class {b!r}")
        if not bs:
            bs = [self.builtins["object"]]
        eid = self.alloc(EnvCell({"__module__": fr.module.name, "__qualname__": n.name, "__doc__": ast.get_docstring(n, clean=False)}))
        cls = ClassV(n.name, tuple(bs), eid, fr.module, node=n)
        cf = Frame(fr.func, fr.module, [eid] + fr.scopes, None, cls=cls)
        cf.class_scopes = (eid,) + tuple(getattr(fr, "class_scopes", ()))
        cf.defining_class = cls
        cf.qual_prefix = n.name + "."
        cf.globals_decl = set()
        self.frames.append(cf)
        try:
            self.exec_block(n.body)
        finally:
            self.frames.pop()
        for k, v in list(self.st.heap[eid].vars.items()):
            if isinstance(v, CachedProp):
                v.name = k
            elif isinstance(v, Obj):
                m = self.class_lookup(self.cell(v).cls, "__set_name__")
                if isinstance(m, Func):
                    self.call(self.bind(m, v), [cls, k], {})
        v = cls
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(n.name, v)

    # -- loops
    def st_Break(self, n):
        self.frames[-1].loops[-1][0].append(self.st)
        raise Dead()

    def st_Continue(self, n):
        self.frames[-1].loops[-1][1].append(self.st)
        raise Dead()

    def run_body(self, body):
        """Execute a loop body once; returns (next_state or None, [break states])."""
        fr = self.frames[-1]
        fr.loops.append(([], []))
        outs = []
        try:
            try:
                self.exec_block(body)
                outs.append((None, self.st))
            except Dead:
                pass
        finally:
            br, co = fr.loops.pop()
        outs += [(None, s) for s in co]
        nxt = self.join_outcomes(outs)[1] if outs else None
        return nxt, br

    def st_For(self, n):
        it = self.res(self.ev(n.iter))
        if isinstance(it, Cond):
            c = it.c

            def side(v):
                def run():
                    self._for(n, v)
                return run

            self.cond_fork(c, side(it.a), side(it.b))
            return
        self.split_items(it, lambda: self._for(n, it))

    def _for(self, n, it):
        items = self.to_items(it)
        if items is not None:
            return self.for_concrete(n, items)
        seq = self.sym_iter(it)
        if seq is None:
            if isinstance(it, Top):
                raise NotImpl(f"iteration over an unknown value ({it.why})")
            if not iterable(self, it):
                self.type_error("object is not iterable", it)
            raise NotImpl(f"iteration over {it!r:.100}")
        length, elem_at = seq
        if self.map_loop(n, length, elem_at):
            return
        self.for_symbolic(n, length, elem_at)

    def map_loop(self, n, length, elem_at):
        """A loop of unknown length whose iterations are independent of one another: every
        iteration appends one item to a list, stores one item of an array at the loop index
        or adds one term to a sum.  Its effect is that of a comprehension, evaluated for a
        generic item."""
        from .nparr import peq

        plan = loop_plan(n)
        if plan is None:
            return False
        private, order = plan
        s0 = self.st.copy()
        nev, keys = len(self.events), set(self._evkeys)
        nsink = len(self.sinks[-1])

        def give_up():
            self.st = s0
            del self.events[nev:]
            self._evkeys = keys
            del self.sinks[-1][nsink:]
            return False

        def current(name):
            return self.res(self.lookup(name))

        tag = f"L{next(self.loopcount)}"
        found = []
        try:
            for kind, name, _ in order:
                if kind == "do":
                    continue
                v = current(name)
                if kind == "append":
                    if not isinstance(v, ListRef) or self.py.resolve_items(self, self.cell(v).items) != ():
                        return give_up()
                elif kind == "store":
                    if not isinstance(v, Arr) or not self.arr(v).shape or peq(self, self.arr(v).shape[0], length) is not True:
                        return give_up()
                elif not isinstance(v, (Arr, AV)):
                    return give_up()
            targets = [current(name) for kind, name, _ in order if kind != "do"]
            if any(isinstance(a, Ref) and a is b for i, a in enumerate(targets) for b in targets[:i]):
                return give_up()
            self.assign(n.target, elem_at(self, None, tag))
            for kind, name, node in order:
                if kind == "do":
                    self.exec_stmt(node)
                    continue
                v = self.freeze(self.ev(node))
                if kind != "append" and not isinstance(v, (AV, Arr)):
                    return give_up()
                found.append((kind, name, v))
        except (Dead, NotImpl):
            return give_up()
        env = self.frames[-1].scopes[0]
        for cid, c in s0.heap.items():
            now = self.st.heap.get(cid)
            if now is c:
                continue
            if cid != getattr(env, "id", env):
                return give_up()
            if any(now.vars.get(k) is not x for k, x in c.vars.items() if k not in private):
                return give_up()
        try:
            for kind, name, v in found:
                o = current(name)
                seq = SymSeq(length, v, tag)
                if kind == "append":
                    c = self.cell(o)
                    self.check_owner(c, "append()")
                    self.set_cell(o, ListCell(GrowItems(tag, seq), c.owner))
                    continue
                av = self.np.asarray_av(self, seq)
                if kind == "store":
                    sh = self.arr(o).shape
                    if len(sh) != len(av.shape) or any(peq(self, a, b) is not True for a, b in zip(sh, av.shape)):
                        return give_up()
                    self.np.setitem(self, o, SliceV(None, None, None), self.new_arr(av))
                else:
                    total = self.np.call_ext(self, Ext("numpy.sum"), [self.new_arr(av)], {"axis": intv(0)})
                    r = self.inplace("Add", o, total) if kind == "iadd" else self.binop("Add", o, total)
                    self.assign_name(name, r)
        except NotImpl:
            return give_up()
        for name in private:
            self.assign_name(name, Top(f"{name} after the loop"))
        return True

    def for_concrete(self, n, items):
        brks = []
        live = True
        for x in items:
            self.assign(n.target, x)
            nxt, br = self.run_body(n.body)
            brks += br
            if nxt is None:
                live = False
                break
            self.st = nxt
        outs = []
        if live:
            if n.orelse:
                try:
                    self.exec_block(n.orelse)
                    outs.append((None, self.st))
                except Dead:
                    pass
            else:
                outs.append((None, self.st))
        outs += [(None, s) for s in brks]
        if not outs:
            raise Dead()
        _, self.st = self.join_outcomes(outs)

    def for_symbolic(self, n, length, elem_at):
        exits = []
        s0 = self.st
        sg = P.sign(length)
        pos = P.mk_ind("gt", length)
        k = self.known(pos)
        if k is False:
            self.st = s0
            return self.exec_block(n.orelse)
        if k is None:
            exits.append(("done", s0.assume(pos, False)))
            self.st = s0.assume(pos, True)
        # first iteration
        self.assign(n.target, elem_at(self, ZERO))
        s1, br = self.run_body(n.body)
        exits += [("break", b) for b in br]
        if s1 is not None:
            loop = f"loop{n.lineno}.{next(self.loopcount)}"
            ia = mk_atom("sym", (loop,), integer=True, lb=F(1))
            self.ub[ia] = length - 1
            i = as_poly(ia)
            head = s1
            changed = {}
            for rnd in range(6):
                self.st = head.assume(fresh_ind(loop), True)
                self.assign(n.target, elem_at(self, i))
                s2, br = self.run_body(n.body)
                if s2 is None:
                    break
                nh, stable = self.widen(loop, s1, head, s2, changed)
                if stable:
                    break
                head = nh
            else:
                raise NotImpl(f"loop at line {n.lineno} does not stabilise")
            exits += [("break", b) for b in br]
            # exhaustion: after the first or after a generic iteration
            done = head.copy()
            self.st = done
            self.assign(n.target, elem_at(self, length - 1))
            exits.append(("done", self.st))
        outs = []
        dones = [s for kind, s in exits if kind == "done"]
        if dones:
            _, self.st = self.join_outcomes([(None, s) for s in dones])
            try:
                if n.orelse:
                    self.exec_block(n.orelse)
                outs.append((None, self.st))
            except Dead:
                pass
        outs += [(None, s) for kind, s in exits if kind == "break"]
        if not outs:
            raise Dead()
        _, self.st = self.join_outcomes(outs)

    def widen(self, loop, first, head, nxt, changed):
        """Generalise loop-carried slots.  Returns (new head, stable)."""
        stable = True
        heap = dict(head.heap)
        self.widen_heap = heap
        for cid, cn in list(nxt.heap.items()):
            ch = head.heap.get(cid)
            if ch is None or ch is cn:
                continue
            if type(ch) is not type(cn):
                raise NotImpl("loop changes a heap cell's type")
            if isinstance(ch, (EnvCell, ObjCell, DictCell)):
                get = {EnvCell: lambda c: c.vars, ObjCell: lambda c: c.fields, DictCell: lambda c: c.d}[type(ch)]
                dh, dn = get(ch), get(cn)
                out = dict(dh)
                ch_any = False
                for k in set(dh) | set(dn):
                    a, b = dh.get(k, _MISSING), dn.get(k, _MISSING)
                    w = self.widen_val(loop, (cid, k), a, b, changed)
                    if w is not a:
                        ch_any = True
                        if w is _MISSING:
                            out.pop(k, None)
                        else:
                            out[k] = w
                if ch_any:
                    stable = False
                    heap[cid] = {EnvCell: EnvCell, ObjCell: None, DictCell: DictCell}[type(ch)](out, ch.owner) if not isinstance(ch, ObjCell) else ObjCell(ch.cls, out, ch.owner)
            elif isinstance(ch, ArrCell):
                w = self.widen_val(loop, (cid, "arr"), ch.av, cn.av, changed)
                if w is not ch.av:
                    stable = False
                    heap[cid] = ArrCell(w, ch.owner, ch.base, ch.derive, ch.putback, None)
            elif isinstance(ch, ListCell):
                if ch.items == cn.items:
                    continue
                if isinstance(ch.items, GrowItems) and ch.items.seq is None:
                    continue
                if isinstance(cn.items, tuple) and isinstance(ch.items, tuple) and len(cn.items) == len(ch.items):
                    its = tuple(self.widen_val(loop, (cid, j), a, b, changed) for j, (a, b) in enumerate(zip(ch.items, cn.items)))
                    if its != ch.items:
                        heap[cid] = ListCell(its, ch.owner)
                        stable = False
                    continue
                # growing list: generic element
                g = GrowItems(f"{loop}.{cid}")
                heap[cid] = ListCell(g, ch.owner)
                stable = False
            elif isinstance(ch, (SetCell, IterCell)):
                if ch.__class__ is IterCell and (ch.items, ch.pos) == (cn.items, cn.pos):
                    continue
                if getattr(ch, "items", None) == getattr(cn, "items", None) and isinstance(ch, SetCell):
                    continue
                raise NotImpl("loop changes a set/iterator")
        return State(heap, head.path, head.facts), stable

    def widen_val(self, loop, key, a, b, changed):
        if a is b:
            return a
        if a is _MISSING or b is _MISSING:
            v = b if a is _MISSING else a
            if isinstance(v, MaybeV):
                return a if a is v else v
            m = MaybeV(v, fresh_ind(loop))
            changed[key] = m
            return m
        if isinstance(a, MaybeV):
            bv = b.v if isinstance(b, MaybeV) else b
            w = self.widen_val(loop, key, a.v, bv, changed)
            return a if w is a.v else MaybeV(w, a.c)
        if isinstance(b, MaybeV):
            return MaybeV(self.widen_val(loop, key, a, b.v, changed), fresh_ind(loop))
        if isinstance(a, AV) and isinstance(b, AV):
            if a == b:
                return a
            ph = changed.get(key)
            if ph is not None and ph is a:
                # a is already the phi: check that it covers b
                if a.shape == b.shape and le_kind(b.kind, a.kind) and (a.unit == b.unit or a.unit is None or b.unit is ANY) and all(
                    x is UNK or x == y for x, y in zip(a.lay, b.lay)
                ) and a.restr == b.restr and (not a.term.single()[0][0][0].nonneg or P.is_nonneg(b.term)):
                    return a
            if a.shape != b.shape or a.restr != b.restr:
                raise NotImpl(f"loop-carried value changes shape ({key[1]})")
            kind = a.kind if le_kind(b.kind, a.kind) else b.kind
            lay = tuple(join_lay(x, y) for x, y in zip(a.lay, b.lay))
            unit = self.join_unit(a.unit, b.unit, "loop-carried values")
            axes = tuple(P.Ax(-j) for j in range(len(a.shape), 0, -1))
            nn = P.is_nonneg(a.term) and P.is_nonneg(b.term)
            integer = P.is_int(a.term) and P.is_int(b.term)
            t = as_poly(mk_atom("phi", (loop, str(key[0]), str(key[1]), len(changed), axes), real=kind != "c", nonneg=nn, integer=integer))
            w = AV(a.shape, kind, unit, t, lay=lay, restr=a.restr, pt=a.pt if a.pt == b.pt else "nd")
            changed[key] = w
            return w
        if isinstance(a, Arr) and isinstance(b, Arr):
            av, bv = self.st.heap.get(a.id), self.st.heap.get(b.id)
            if a == b:
                return a
            aav, bav = self.arr_in(self.st, a), self.arr_in(self.st, b)
            ph = changed.get(key)
            if ph is not None and ph[0] == a:
                w = self.widen_val(loop, (key, "ref"), ph[1], bav, changed)
                if w is ph[1]:
                    return a
                r = self.phi_arr(w)
                changed[key] = (r, w)
                return r
            w = self.widen_val(loop, (key, "ref"), aav, bav, changed)
            r = self.phi_arr(w)
            changed[key] = (r, w)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            w = tuple(self.widen_val(loop, (key, j), x, y, changed) for j, (x, y) in enumerate(zip(a, b)))
            return a if all(x is y for x, y in zip(a, w)) else w
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            return a
        if isinstance(a, (StrV, str)) and isinstance(b, (StrV, str)):
            return StrV([ExtObj("str", uid=f"{loop}.{key}")])
        raise NotImpl(f"loop-carried value of changing kind: {key[1]} {a!r:.60} / {b!r:.60}")

    def phi_arr(self, av):
        r = self.new_arr(av)
        self.widen_heap[r.id] = self.st.heap[r.id]
        return r

    def arr_in(self, st, ref):
        s = self.st
        self.st = st
        try:
            return self.arr(ref)
        finally:
            self.st = s

    def st_While(self, n):
        brks = []
        for cnt in range(4000):
            c = self.test(n.test)
            k = self.known(c)
            if k is None:
                return self.while_symbolic(n, brks, cnt)
            if k is False:
                break
            nxt, br = self.run_body(n.body)
            brks += br
            if nxt is None:
                if not brks:
                    raise Dead()
                _, self.st = self.join_outcomes([(None, s) for s in brks])
                return
            self.st = nxt
        else:
            raise NotImpl("while loop does not terminate under constant conditions")
        outs = []
        try:
            self.exec_block(n.orelse)
            outs.append((None, self.st))
        except Dead:
            pass
        outs += [(None, s) for s in brks]
        if not outs:
            raise Dead()
        _, self.st = self.join_outcomes(outs)

    def while_symbolic(self, n, brks, cnt):
        """Condition not decided: zero or more further iterations, fixpoint."""
        s0 = self.st
        loop = f"while{n.lineno}.{next(self.loopcount)}"
        head = s0
        changed = {}
        first = True
        br = []
        for rnd in range(8):
            self.st = head.copy()
            c = self.test(n.test)
            k = self.known(c)
            h = self.st
            self.st = h.assume(c, True)
            s2, br = self.run_body(n.body)
            if s2 is None:
                break
            nh, stable = self.widen(loop, s0, head, s2, changed)
            if stable:
                break
            head = nh
        else:
            raise NotImpl(f"while loop at line {n.lineno} does not stabilise")
        self.st = head.copy()
        c = self.test(n.test)
        self.st = self.st.assume(c, False)
        outs = []
        try:
            self.exec_block(n.orelse)
            outs.append((None, self.st))
        except Dead:
            pass
        outs += [(None, s) for s in list(brks) + br]
        if not outs:
            raise Dead()
        _, self.st = self.join_outcomes(outs)

    def st_Match(self, n):
        v = self.res(self.ev(n.subject))
        self._match_cases(v, n.cases)

    def _match_cases(self, v, cases):
        if not cases:
            return
        case = cases[0]
        c = self.match_pattern(case.pattern, v)
        k = self.known(c)
        if case.guard is not None and k is not False:
            g = self.test(case.guard)
            c = c * g
            k = self.known(c)
        if k is True:
            return self.exec_block(case.body)
        if k is False:
            return self._match_cases(v, cases[1:])
        s0 = self.st
        outs = []
        self.st = s0.assume(c, True)
        try:
            self.exec_block(case.body)
            outs.append((None, self.st))
        except Dead:
            pass
        self.st = s0.assume(c, False)
        try:
            self._match_cases(v, cases[1:])
            outs.append((None, self.st))
        except Dead:
            pass
        if not outs:
            raise Dead()
        _, self.st = self.join_outcomes(outs)

    def match_pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            val = p.value if p.value is None else num(p.value)
            return self.truth(self.compare("Is", v, val))
        if isinstance(p, ast.MatchOr):
            c = ZERO
            for q in p.patterns:
                c = P.ind_or(c, self.match_pattern(q, v))
            return c
        if isinstance(p, ast.MatchAs):
            c = P1 if p.pattern is None else self.match_pattern(p.pattern, v)
            if p.name:
                self.assign_name(p.name, v)
            return c
        if isinstance(p, ast.MatchSequence):
            items = self.to_items(v)
            if items is None or len(items) != len(p.patterns):
                return ZERO
            c = P1
            for q, x in zip(p.patterns, items):
                c = c * self.match_pattern(q, x)
            return c
        raise NotImpl("match pattern")

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise NotImpl(f"expression {type(n).__name__}")
        return m(n)

    def ev_Constant(self, n):
        v = n.value
        if isinstance(v, (bool, int, float, complex)):
            return num(v)
        return v

    def ev_Name(self, n):
        return self.lookup(n.id)

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        fr = self.frames[-1]
        # bind in the enclosing function scope
        sc = fr.scopes[fr.comp_depth]
        self.set_env(sc, n.target.id, v)
        return v

    def ev_Tuple(self, n):
        return tuple(self.ev_elts(n.elts))

    def ev_List(self, n):
        return self.new_list(self.ev_elts(n.elts))

    def ev_Set(self, n):
        return self.new_set(self.ev_elts(n.elts))

    def ev_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                items = self.to_items(v)
                if items is None:
                    raise NotImpl("star-unpacking a sequence of unknown length")
                out.extend(items)
            else:
                out.append(self.ev(e))
        return out

    def ev_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.res(self.ev(v))
                for kk, vv in self.py.dict_items_of(self, src):
                    d[kk] = vv
            else:
                kk = self.ev(k)
                d[self.dkey(kk)] = self.ev(v)
        return self.new_dict(d)

    def dkey(self, k):
        k = self.res(k)
        if isinstance(k, AV):
            c = k.term.const()
            if c is not None and c.denominator == 1:
                return num(int(c)) if k.pt != "int" else k
            return k
        if isinstance(k, (ListRef, DictRef, SetRef, Arr)):
            self.throw("TypeError", "unhashable type")
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        return k

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.ev_FormattedValue(v))
        return mkstr(parts)

    def ev_FormattedValue(self, n):
        v = self.res(self.ev(n.value))
        conv = chr(n.conversion) if n.conversion and n.conversion > 0 else None
        spec = self.ev(n.format_spec) if n.format_spec is not None else None
        return self.py.format_value(self, v, conv, spec)

    def ev_Attribute(self, n):
        o = self.ev(n.value)
        return self.getattr(o, n.attr)

    def ev_Subscript(self, n):
        o = self.ev(n.value)
        return self.getitem(o, self.ev_index(n.slice))

    def ev_index(self, n):
        if isinstance(n, ast.Slice):
            return self.ev_Slice(n)
        if isinstance(n, ast.Tuple):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Slice):
                    out.append(self.ev_Slice(e))
                elif isinstance(e, ast.Starred):
                    out.extend(self.to_items(self.ev(e.value)))
                else:
                    out.append(self.ev(e))
            return tuple(out)
        return self.ev(n)

    def ev_Slice(self, n):
        f = lambda x: None if x is None else self.ev(x)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def ev_Starred(self, n):
        raise NotImpl("starred expression")

    def ev_Lambda(self, n):
        return self.make_func(n, name="<lambda>")

    def ev_IfExp(self, n):
        c = self.test(n.test)
        return self.cond_fork(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def ev_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        return self._boolop(n.values, is_and)

    def _boolop(self, vals, is_and):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        c = self.truth(v)
        if is_and:
            return self.cond_fork(c, lambda: self._boolop(vals[1:], True), lambda: self.falsy(v, c))
        return self.cond_fork(c, lambda: self.truthy(v, c), lambda: self._boolop(vals[1:], False))

    def falsy(self, v, c):
        if isinstance(v, AV) and v.kind == "b":
            return boolv(False)
        return self.res(v)

    def truthy(self, v, c):
        if isinstance(v, AV) and v.kind == "b":
            return boolv(True)
        return self.res(v)

    def ev_UnaryOp(self, n):
        op = type(n.op).__name__
        if op == "Not":
            return indv(P.ind_not(self.test(n.operand)))
        v = self.ev(n.operand)
        return self.dist([v], lambda vs: self.unary(op, vs[0]))

    def unary(self, op, v):
        if isinstance(v, Top):
            return Top("unary")
        if isinstance(v, (AV, Arr)):
            return self.np.unary(self, op, v)
        if isinstance(v, Obj):
            m = self.class_lookup(self.cell(v).cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m is not None:
                return self.call(self.bind(m, v), [], {})
        self.type_error(f"bad operand type for unary {op}", v)

    def ev_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.dist([a, b], lambda v: self.binop1(op, v[0], v[1]))

    def binop1(self, op, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("binop")
        if isinstance(a, Obj) or isinstance(b, Obj):
            d, r = BIN_DUNDER[op]
            if isinstance(a, Obj):
                m = self.class_lookup(self.cell(a).cls, d)
                if m is not None:
                    return self.call(self.bind(m, a), [b], {})
            if isinstance(b, Obj):
                m = self.class_lookup(self.cell(b).cls, r)
                if m is not None:
                    return self.call(self.bind(m, b), [a], {})
            self.type_error(f"unsupported operand types for {op}", a, b)
        if isinstance(a, (AV, Arr)) and isinstance(b, (AV, Arr)):
            return self.np.binop(self, op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            # array op sequence
            o = b if isinstance(a, Arr) else a
            if isinstance(o, (tuple, ListRef, RangeV, SymSeq)):
                x = self.np.asarray_av(self, o)
                if isinstance(a, Arr):
                    return self.np.binop(self, op, a, x)
                return self.np.binop(self, op, x, b)
            if o is None or isinstance(o, (str, StrV)):
                self.throw("TypeError", f"unsupported operand for {op}")
        if isinstance(a, (ExtObj, Ext)) or isinstance(b, (ExtObj, Ext)):
            return ExtObj(f"({describe(a)} {op} {describe(b)})", uid=f"op{op}:{describe(a)}:{describe(b)}")
        return self.py.seq_binop(self, op, a, b)

    def ev_Compare(self, n):
        left = self.ev(n.left)
        if len(n.ops) == 1:
            return self.compare(type(n.ops[0]).__name__, left, self.ev(n.comparators[0]))
        return self._chain(left, n.ops, n.comparators)

    def _chain(self, left, ops, comps):
        right = self.ev(comps[0])
        v = self.compare(type(ops[0]).__name__, left, right)
        if len(ops) == 1:
            return v
        c = self.truth(v)
        k = self.known(c)
        if k is False:
            return boolv(False)
        if k is True:
            return self._chain(right, ops[1:], comps[1:])
        s0 = self.st
        self.st = s0.assume(c, True)
        try:
            r = self.truth(self._chain(right, ops[1:], comps[1:]))
            s1 = self.st
        except Dead:
            self.st = s0.assume(c, False)
            return boolv(False)
        _, self.st = self.join_outcomes([(None, s1), (None, s0.assume(c, False))])
        return indv(c * r)

    def compare(self, op, a, b):
        return self.dist([a, b], lambda v: self.compare1(op, v[0], v[1]))

    def compare1(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.py.is_same(self, a, b)
            if isinstance(r, bool):
                return boolv(r if op == "Is" else not r)
            return indv(r if op == "Is" else P1 - r)
        if op in ("In", "NotIn"):
            c = self.py.contains(self, b, a)
            if isinstance(c, bool):
                c = as_poly(int(c))
            return indv(c if op == "In" else P.ind_not(c))
        if isinstance(a, Top) or isinstance(b, Top):
            return indv(fresh_ind("cmp"))
        if isinstance(a, Obj) or isinstance(b, Obj):
            d = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            for x, y in ((a, b),):
                if isinstance(x, Obj):
                    m = self.class_lookup(self.cell(x).cls, d)
                    if m is not None:
                        return self.call(self.bind(m, x), [y], {})
            if op == "Eq":
                return boolv(a == b if type(a) is type(b) else False)
            if op == "NotEq":
                return boolv(not (a == b if type(a) is type(b) else False))
            self.type_error(f"{op} not supported", a, b)
        if isinstance(a, (AV, Arr)) and isinstance(b, (AV, Arr)):
            return self.np.compare(self, op, a, b)
        if isinstance(a, Arr) and isinstance(b, (tuple, ListRef)):
            return self.np.compare(self, op, a, self.np.asarray_av(self, b))
        if isinstance(b, Arr) and isinstance(a, (tuple, ListRef)):
            return self.np.compare(self, op, self.np.asarray_av(self, a), b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            # array vs None/str: elementwise False
            if op in ("Eq", "NotEq"):
                arr_ = a if isinstance(a, Arr) else b
                av = self.arr(arr_)
                return self.new_arr(AV(av.shape, "b", F(0), ZERO if op == "Eq" else P1, lay=tuple(CST for _ in av.shape)))
        return self.py.seq_compare(self, op, a, b)

    def ev_Call(self, n):
        f = self.ev(n.func)
        args = []
        kwargs = {}
        self_node = self.frames[-1].node
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and isinstance(f, ClassV) and f.builtin == "super":
            return self.py.zero_arg_super(self)
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.res(self.ev(a.value))
                items = self.to_items(v)
                if items is None:
                    raise NotImpl("call with * of unknown length")
                args.extend(items)
            else:
                args.append(self.ev(a))
        for kw in n.keywords:
            if kw.arg is None:
                src = self.res(self.ev(kw.value))
                for k, v in self.py.dict_items_of(self, src):
                    if k in kwargs:
                        self.throw("TypeError", f"got multiple values for keyword argument {k!r}")
                    kwargs[k] = v
            else:
                if kw.arg in kwargs:
                    self.throw("TypeError", f"got multiple values for keyword argument {kw.arg!r}")
                kwargs[kw.arg] = self.ev(kw.value)
        if any(isinstance(v, MaybeV) for v in kwargs.values()):
            for k, v in list(kwargs.items()):
                if isinstance(v, MaybeV):
                    c = v.c
                    kt = dict(kwargs)
                    kt[k] = v.v
                    kf = dict(kwargs)
                    del kf[k]
                    return self.cond_fork(c, lambda: self.call(f, args, kt), lambda: self.call(f, args, kf))
        r = self.call(f, args, kwargs)
        self.frames[-1].node = self_node
        return r

    def ev_ListComp(self, n):
        r = self.comp(n.generators, lambda: self.ev(n.elt))
        return r if not isinstance(r, list) else self.new_list(r)

    def ev_SetComp(self, n):
        r = self.comp(n.generators, lambda: self.ev(n.elt))
        return self.new_set(r)

    def ev_GeneratorExp(self, n):
        r = self.comp(n.generators, lambda: self.ev(n.elt))
        if isinstance(r, list):
            return IterRef(self.alloc(IterCell(tuple(r))))
        return r

    def ev_DictComp(self, n):
        r = self.comp(n.generators, lambda: (self.ev(n.key), self.ev(n.value)))
        if not isinstance(r, list):
            raise NotImpl("dict comprehension of unknown length")
        d = {}
        for k, v in r:
            d[self.dkey(k)] = v
        return self.new_dict(d)

    def comp(self, gens, elt):
        fr = self.frames[-1]
        eid = self.alloc(EnvCell({}))
        fr.scopes = [eid] + fr.scopes
        fr.comp_depth += 1
        try:
            return self._comp(gens, elt)
        finally:
            fr.scopes = fr.scopes[1:]
            fr.comp_depth -= 1

    def _comp(self, gens, elt):
        if not gens:
            return [elt()]
        g = gens[0]
        it = self.res(self.ev(g.iter))
        if isinstance(it, Cond):
            outs = []

            def run(v):
                return lambda: tuple(self._comp_over(v, g, gens, elt)) if self.to_items(v) is not None else self._comp_over(v, g, gens, elt)

            r = self.cond_fork(it.c, run(it.a), run(it.b))
            if isinstance(r, tuple):
                return list(r)
            if isinstance(r, Cond):
                raise NotImpl("comprehension over alternatives of different length")
            return r
        return self._comp_over(it, g, gens, elt)

    def _comp_over(self, it, g, gens, elt):
        items = self.to_items(it)
        if items is not None:
            out = []
            for x in items:
                self.assign(g.target, x)
                ok = True
                for cnd in g.ifs:
                    c = self.test(cnd)
                    k = self.known(c)
                    if k is None:
                        raise NotImpl("comprehension filter on an unknown condition")
                    if not k:
                        ok = False
                        break
                if ok:
                    r = self._comp(gens[1:], elt)
                    if not isinstance(r, list):
                        raise NotImpl("nested symbolic comprehension")
                    out.extend(r)
            return out
        seq = self.sym_iter(it)
        if seq is None or g.ifs or len(gens) > 1:
            raise NotImpl(f"comprehension over {it!r:.100}")
        length, elem_at = seq
        tag = f"L{next(self.loopcount)}"
        self.assign(g.target, elem_at(self, None, tag))
        v = elt()
        v = self.freeze(v)
        return SymSeq(length, v, tag)

    def freeze(self, v):
        """Replace array refs by AVs (for generic elements)."""
        v = self.res(v)
        if isinstance(v, Arr):
            return self.arr(v)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        return v

    def thaw(self, v):
        if isinstance(v, AV) and v.shape != ():
            return self.new_arr(v)
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        return v

    def ev_Yield(self, n):
        v = None if n.value is None else self.ev(n.value)
        fr = self.frames[-1]
        if fr.yield_hook is not None:
            fr.yield_hook(v)
            return None
        self.append_yield(v)
        return None

    def ev_YieldFrom(self, n):
        v = self.ev(n.value)
        items = self.to_items(v)
        if items is None:
            raise NotImpl("yield from unknown sequence")
        for x in items:
            self.append_yield(x)
        return None

    def append_yield(self, v):
        fr = self.frames[-1]
        c = self.cell(fr.yields)
        self.set_cell(fr.yields, ListCell(c.items + (v,)))

    def ev_Await(self, n):
        raise NotImpl("await")

    # ------------------------------------------------------------ iteration helpers
    def to_items(self, v):
        """Concrete list of items of an iterable, or None if its length is not known."""
        return self.py.to_items(self, v)

    def sym_iter(self, v):
        return self.py.sym_iter(self, v)

    # ------------------------------------------------------------ classes & attributes
    def class_lookup(self, cls, name):
        for c in cls.mro:
            if c.env is not None:
                v = self.st.heap[c.env].vars.get(name, _MISSING)
                if v is not _MISSING:
                    return v
            elif c.builtin is not None:
                v = self.py.builtin_class_attr(self, c, name)
                if v is not None:
                    return v
        return None

    def class_lookup_owner(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if c.env is not None:
                v = self.st.heap[c.env].vars.get(name, _MISSING)
                if v is not _MISSING:
                    return v
            elif c.builtin is not None:
                v = self.py.builtin_class_attr(self, c, name)
                if v is not None:
                    return v
        return None

    def bind(self, f, obj):
        """Descriptor binding for functions."""
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return Bound(f.f, self.cell(obj).cls if isinstance(obj, Obj) else obj)
        if isinstance(f, (Func, Builtin)):
            return Bound(f, obj)
        return f

    def is_property(self, v):
        return isinstance(v, Obj) and any(c.builtin == "property" for c in self.cell(v).cls.mro)

    def getattr(self, o, name):
        o = self.res(o)
        if isinstance(o, Cond):
            return self.cond_fork(o.c, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        return self.getattr1(o, name)

    def getattr1(self, o, name):
        if isinstance(o, Obj):
            return self.obj_getattr(o, name)
        if isinstance(o, ClassV):
            return self.class_getattr(o, name)
        if isinstance(o, Super):
            return self.super_getattr(o, name)
        if isinstance(o, ModuleV):
            v = self.env_get(o.env, name)
            if v is not _MISSING:
                return self.slot_read(v, "attr", name)
            if self.is_project(o.name + "." + name) and (o.name + "." + name) in self.modules:
                return self.modules[o.name + "." + name]
            self.throw("AttributeError", f"module {o.name} has no attribute {name}")
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        return self.py.getattr_builtin(self, o, name)

    def obj_getattr(self, o, name):
        cell = self.cell(o)
        cls = cell.cls
        cv = self.class_lookup(cls, name)
        if cv is not None and self.is_property(cv):
            fget = self.cell(cv).fields.get("fget")
            if fget is None:
                self.throw("AttributeError", f"property {name} has no getter")
            return self.call(fget, [o], {})
        if isinstance(cv, Obj):
            g = self.class_lookup(self.cell(cv).cls, "__get__")
            s = self.class_lookup(self.cell(cv).cls, "__set__")
            if g is not None and (s is not None or name not in cell.fields):
                return self.call(self.bind(g, cv), [o, cls], {})
        fv = cell.fields.get(name, _MISSING)
        if fv is not _MISSING:
            fv = self.res(fv)
            if isinstance(fv, Poison):
                self.event("poison", f"attribute {name!r} of {cls.name} is read before it is rebuilt")
                return Top(f"stale {name}")
            if isinstance(fv, MaybeV):
                k = self.known(fv.c)
                if k is True:
                    return self.res(fv.v)
                if isinstance(cv, CachedProp) or cv is not None:
                    return self.cond_fork(fv.c, lambda: self.res(fv.v), lambda: self.class_attr_of_obj(o, cv, name))
                return self.slot_read(fv, "attr", name)
            return fv
        if cv is not None:
            return self.class_attr_of_obj(o, cv, name)
        if name == "__class__":
            return cls
        if name == "__dict__":
            return InstDict(o)
        if name == "__doc__":
            return None
        ga = self.class_lookup(cls, "__getattr__")
        if ga is not None:
            return self.call(self.bind(ga, o), [name], {})
        b = self.py.object_attr(self, o, name)
        if b is not None:
            return b
        self.throw("AttributeError", f"'{cls.name}' object has no attribute '{name}'")

    def class_attr_of_obj(self, o, cv, name):
        if cv is None:
            self.throw("AttributeError", f"no attribute {name}")
        if isinstance(cv, CachedProp):
            # compute and store
            c = self.cell(o)
            if name in c.fields:  # absent on this path
                self.del_field(o, name)
            v = self.call(cv.f, [o], {})
            self.set_field(o, cv.name or name, v)
            return v
        if isinstance(cv, (Func, Builtin, StaticM, ClassM)):
            return self.bind(cv, o)
        if isinstance(cv, PartialMethod):
            return Bound(cv, o)
        if isinstance(cv, LruFunc):
            return Bound(cv, o)
        return cv

    def class_getattr(self, c, name):
        if name == "__name__" or name == "__qualname__":
            return c.name
        if name == "__mro__":
            return tuple(c.mro)
        if name == "__bases__":
            return tuple(c.bases)
        if name == "__module__":
            return c.module.name if c.module else "builtins"
        v = self.class_lookup(c, name)
        if v is not None:
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, c)
            return v
        if name == "__doc__":
            return None
        if name == "__dict__":
            return self.new_dict(dict(self.st.heap[c.env].vars) if c.env is not None else {})
        b = self.py.class_attr(self, c, name)
        if b is not None:
            return b
        self.throw("AttributeError", f"type object '{c.name}' has no attribute '{name}'")

    def super_getattr(self, s, name):
        obj = s.obj
        cls = obj if isinstance(obj, ClassV) else self.cell(obj).cls
        v = self.class_lookup_owner(cls, name, after=s.cls)
        if v is None:
            b = self.py.object_attr(self, obj, name)
            if b is not None:
                return b
            self.throw("AttributeError", f"'super' object has no attribute '{name}'")
        if self.is_property(v):
            return self.call(self.cell(v).fields["fget"], [obj], {})
        if isinstance(v, CachedProp):
            r = self.call(v.f, [obj], {})
            self.set_field(obj, v.name or name, r)
            return r
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, (Func, Builtin)):
            return Bound(v, obj)
        return v

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Cond):
            return self.cond_fork(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
        if isinstance(o, Obj):
            cell = self.cell(o)
            cv = self.class_lookup(cell.cls, name)
            if cv is not None and self.is_property(cv):
                fset = self.cell(cv).fields.get("fset")
                if fset is None:
                    self.throw("AttributeError", f"property '{name}' has no setter")
                self.call(fset, [o, v], {})
                return
            if isinstance(cv, Obj):
                s = self.class_lookup(self.cell(cv).cls, "__set__")
                if s is not None:
                    self.call(self.bind(s, cv), [o, v], {})
                    return
            sa = self.class_lookup(cell.cls, "__setattr__")
            if isinstance(sa, Func):
                self.call(self.bind(sa, o), [name, v], {})
                return
            self.set_field(o, name, v)
            return
        if isinstance(o, ClassV):
            if o.env is None:
                self.throw("TypeError", "cannot set attributes of built-in type")
            self.set_env(o.env, name, v)
            return
        if isinstance(o, ModuleV):
            self.set_env(o.env, name, v)
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Arr):
            return self.np.arr_setattr(self, o, name, v)
        if isinstance(o, (Ext, ExtObj)):
            self.event("extset", f"assignment to attribute {name} of {o.path}", data=(o, name, v))
            return
        if isinstance(o, Top):
            return
        if isinstance(o, (CachedProp,)):
            setattr(o, name, v)
            return
        self.throw("AttributeError", f"cannot set attribute {name}")

    def set_field(self, o, name, v):
        c = self.cell(o)
        if c.owner:
            self.event("mutate", f"assignment to attribute {name!r} of {c.owner}", data=c.owner)
        d = dict(c.fields)
        d[name] = v
        self.set_cell(o, ObjCell(c.cls, d, c.owner))

    def del_field(self, o, name):
        c = self.cell(o)
        if c.owner:
            self.event("mutate", f"deletion of attribute {name!r} of {c.owner}", data=c.owner)
        d = dict(c.fields)
        d.pop(name, None)
        self.set_cell(o, ObjCell(c.cls, d, c.owner))

    def delattr(self, o, name):
        o = self.res(o)
        if isinstance(o, Cond):
            return self.cond_fork(o.c, lambda: self.delattr(o.a, name), lambda: self.delattr(o.b, name))
        if isinstance(o, Obj):
            cell = self.cell(o)
            cv = self.class_lookup(cell.cls, name)
            if cv is not None and self.is_property(cv):
                fdel = self.cell(cv).fields.get("fdel")
                if fdel is None:
                    self.throw("AttributeError", f"property '{name}' has no deleter")
                self.call(fdel, [o], {})
                return
            fv = cell.fields.get(name, _MISSING)
            if fv is _MISSING:
                self.throw("AttributeError", name)
            if isinstance(fv, MaybeV):
                self.maybe_throw(P1 - fv.c, "AttributeError", name)
            self.del_field(o, name)
            return
        if isinstance(o, Top):
            return
        raise NotImpl("delattr")

    # ------------------------------------------------------------ items
    def getitem(self, o, ix):
        o = self.res(o)
        if isinstance(o, Cond):
            return self.cond_fork(o.c, lambda: self.getitem(o.a, ix), lambda: self.getitem(o.b, ix))
        ix = self.res(ix)
        if isinstance(ix, Cond):
            return self.cond_fork(ix.c, lambda: self.getitem(o, ix.a), lambda: self.getitem(o, ix.b))
        if isinstance(o, (Arr, AV)):
            c = self.np.nested_cond(self, (ix,))
            if c is not None:
                ix2 = ix
                return self.cond_fork(c, lambda: self.getitem(o, self.deep_res(ix2)), lambda: self.getitem(o, self.deep_res(ix2)))
            ix = self.deep_res(ix)
        return self.py.getitem(self, o, ix)

    def deep_res(self, v):
        v = self.res(v)
        if isinstance(v, tuple):
            return tuple(self.deep_res(x) for x in v)
        if isinstance(v, SliceV):
            return SliceV(self.deep_res(v.a), self.deep_res(v.b), self.deep_res(v.c))
        return v

    def setitem(self, o, ix, v):
        o = self.res(o)
        if isinstance(o, Cond):
            return self.cond_fork(o.c, lambda: self.setitem(o.a, ix, v), lambda: self.setitem(o.b, ix, v))
        v = self.res(v)
        if isinstance(v, Cond) and isinstance(o, Arr):
            return self.cond_fork(v.c, lambda: self.setitem(o, ix, v.a), lambda: self.setitem(o, ix, v.b))
        ix = self.res(ix)
        if isinstance(ix, Cond):
            return self.cond_fork(ix.c, lambda: self.setitem(o, ix.a, v), lambda: self.setitem(o, ix.b, v))
        return self.py.setitem(self, o, ix, v)

    def delitem(self, o, ix):
        return self.py.delitem(self, self.res(o), self.res(ix))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.res(f)
        self.calls += 1
        if isinstance(f, Cond):
            return self.cond_fork(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            return self.call_builtin(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.np.call_ext(self, f, args, kwargs)
        if isinstance(f, (ExtObj, ExtMeth)):
            return self.np.call_extobj(self, f, args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw)
        if isinstance(f, LruFunc):
            return self.call_lru(f, args, kwargs)
        if isinstance(f, PartialMethod):
            return self.call(f.f, [args[0]] + list(f.args) + list(args[1:]), {**f.kwargs, **kwargs})
        if isinstance(f, GenCMFactory):
            return GenCM(f.func, args, kwargs)
        if isinstance(f, Obj):
            m = self.class_lookup(self.cell(f).cls, "__call__")
            if m is not None:
                return self.call(self.bind(m, f), args, kwargs)
        if isinstance(f, Top):
            self.event("unmodelled", "call of an unknown value")
            return Top("call")
        self.type_error(f"{describe(f)} is not callable", f)

    def alive(self, v):
        """All references of a value exist in the current state."""
        if isinstance(v, tuple):
            return all(self.alive(x) for x in v)
        if isinstance(v, Cond):
            return self.alive(v.a) and self.alive(v.b)
        return not isinstance(v, Ref) or v.id in self.st.heap

    def call_lru(self, f, args, kwargs):
        """Memoised function: the cached result for value-equal arguments is the same object."""
        key = (tuple(args), tuple(sorted(kwargs.items())))
        for k, v in f.memo:
            try:
                if k == key and self.alive(v):
                    return v
            except Exception:
                pass
        v = self.call(f.f, args, kwargs)
        f.memo.append((key, v))
        return v

    def call_builtin(self, f, args, kwargs):
        vals = list(args) + list(kwargs.values())
        if any(isinstance(v, Cond) for v in vals) and not getattr(f, "lazy", False):
            n = len(args)
            ks = list(kwargs)
            return self.dist(vals, lambda vs: f.fn(self, list(vs[:n]), dict(zip(ks, vs[n:]))))
        for v in vals:
            it = self.open_items(v)
            if it is not None and not getattr(f, "lazy", False):
                again = lambda: self.call_builtin(f, args, kwargs)
                return self.cond_fork(it.c, again, again)
        return f.fn(self, list(args), dict(kwargs))

    def call_func(self, f, args, kwargs, yield_hook=None):
        if len(self.frames) > self.MAX_DEPTH:
            raise NotImpl("call depth exceeded (unbounded recursion?)")
        self.funcs_seen.add((f.module.name, f.qual))
        bound = self.bind_args(f, args, kwargs)
        eid = self.alloc(EnvCell(bound))
        self_ = None
        a = f.node.args
        if f.cls is not None and (a.posonlyargs or a.args):
            self_ = bound.get((a.posonlyargs + a.args)[0].arg)
        fr = Frame(f, f.module, [eid] + list(f.env), f.locals, cls=f.cls, self_=self_)
        fr.node = f.node
        fr.yield_hook = yield_hook
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(f.node.body)
            finally:
                del self.frames[self.frames.index(fr):]
        if f.is_gen and yield_hook is None:
            fr.yields = self.new_list(())
        depth = len(self.frames)
        self.frames.append(fr)
        try:
            try:
                self.exec_block(f.node.body)
                fr.returns.append((None, self.st))
            except Dead:
                pass
        finally:
            del self.frames[depth:]
        if not fr.returns:
            raise Dead()
        v, self.st = self.join_outcomes(fr.returns)
        if fr.yields is not None:
            items = self.cell(fr.yields).items
            if not isinstance(items, tuple):
                raise NotImpl("generator yields depend on an unknown condition")
            return IterRef(self.alloc(IterCell(items)))
        return v

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos_only = len(a.posonlyargs)
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        fname = f.qual
        for i, nm in enumerate(pos):
            if i < len(args):
                out[nm] = args[i]
                if nm in kwargs and i >= npos_only:
                    self.throw("TypeError", f"{fname}() got multiple values for argument '{nm}'")
            elif nm in kwargs and i >= npos_only:
                out[nm] = kwargs.pop(nm)
            else:
                di = i - (len(pos) - len(f.defaults))
                if di >= 0:
                    out[nm] = f.defaults[di]
                else:
                    self.throw("TypeError", f"{fname}() missing required argument '{nm}'")
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw("TypeError", f"{fname}() takes {len(pos)} positional arguments but {len(args)} were given")
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                out[x.arg] = f.kwdefaults[x.arg]
            else:
                self.throw("TypeError", f"{fname}() missing required keyword-only argument '{x.arg}'")
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(kwargs)
        elif kwargs:
            self.throw("TypeError", f"{fname}() got an unexpected keyword argument '{sorted(kwargs)[0]}'")
        return out

    def instantiate(self, cls, args, kwargs):
        if cls.env is None and cls.builtin is not None:
            return self.py.call_builtin_class(self, cls, args, kwargs)
        if any(c.builtin in BUILTIN_EXC.values() for c in cls.mro if isinstance(c.builtin, type)):
            o = Obj(self.alloc(ObjCell(cls, {"args": tuple(args)})))
            init = self.class_lookup(cls, "__init__")
            if isinstance(init, Func):
                self.call(self.bind(init, o), args, kwargs)
            return o
        new = self.class_lookup(cls, "__new__")
        if isinstance(new, (Func, StaticM)):
            o = self.call(new.f if isinstance(new, StaticM) else new, [cls] + list(args), kwargs)
            if not isinstance(o, Obj):
                return o
        else:
            o = Obj(self.alloc(ObjCell(cls, {})))
        init = self.class_lookup(cls, "__init__")
        if init is None:
            if args or kwargs:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
            return o
        r = self.call(self.bind(init, o), args, kwargs)
        return o


# ---------------------------------------------------------------- helpers
class CachedProp:
    def __init__(self, f, name=None):
        self.f, self.name = f, name
        self.__doc__ = None

    def __repr__(self):
        return f"<cached_property {self.name}>"


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class PartialV:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class PartialMethod(PartialV):
    pass


class LruFunc:
    def __init__(self, f):
        self.f = f
        self.memo = []


class SuppressCM:
    def __init__(self, types):
        self.types = types


class GenCMFactory:
    def __init__(self, func):
        self.func = func


class GenCM:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class IterRef(Ref):
    pass


class Poison:
    def __repr__(self):
        return "<poison>"


class CondItems:
    """Items of a list/set that differ between two joined paths."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class GrowItems:
    """Items of a list filled by a loop of unknown length; seq describes them when known."""

    def __init__(self, tag, seq=None):
        self.tag, self.seq = tag, seq


def loop_plan(n):
    """(private names, [(kind, name, node)]) when the iterations of the for statement n can
    only interact through appends, stores at the loop index and sums; None otherwise."""
    if n.orelse:
        return None
    bad = (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Lambda, ast.FunctionDef, ast.Delete)
    for st in n.body:
        for x in ast.walk(st):
            if isinstance(x, bad):
                return None
    names = lambda t: [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
    index = None
    if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name):
        if n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name):
            index = n.target.id
        elif n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and not n.iter.keywords and isinstance(n.target, ast.Tuple):
            if n.target.elts and isinstance(n.target.elts[0], ast.Name):
                index = n.target.elts[0].id
    if any(not isinstance(x, (ast.Name, ast.Tuple, ast.List, ast.Load, ast.Store)) for x in ast.walk(n.target)):
        return None
    private = set(names(n.target))
    order, shared = [], []
    stored = {x.id for st in n.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def add(kind, name, node):
        order.append((kind, name, node))
        shared.append(name)

    for st in n.body:
        if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            c = st.value
            if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and len(c.args) == 1 and not c.keywords:
                add("append", c.func.value.id, c.args[0])
                continue
        if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and st.target.id not in private:
            add("iadd", st.target.id, st.value)
            continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            t = st.targets[0]
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and index is not None:
                sl = t.slice.value if isinstance(t.slice, ast.Index) else t.slice
                if isinstance(sl, ast.Name) and sl.id == index and index not in stored:
                    add("store", t.value.id, st.value)
                    continue
                return None
            if isinstance(t, ast.Name) and t.id not in private and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add):
                if isinstance(st.value.left, ast.Name) and st.value.left.id == t.id:
                    add("add", t.id, st.value.right)
                    continue
            if isinstance(t, ast.Tuple) and any(not isinstance(x, (ast.Name, ast.Tuple, ast.Load, ast.Store)) for x in ast.walk(t)):
                return None
            if isinstance(t, (ast.Name, ast.Tuple)):
                # private to one iteration: assigned before it is read
                order.append(("do", None, st))
                private |= set(names(t))
                continue
        return None
    if not shared or len(set(shared)) != len(shared) or set(shared) & private:
        return None
    seen = set(names(n.target))
    for kind, name, node in order:
        reads = node.value if kind == "do" else node
        used = {x.id for x in ast.walk(reads) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        if used & set(shared) or used & (private - seen):
            return None
        if kind == "do":
            seen |= set(names(node.targets[0]))
    return private, order


class _Missing:
    def __repr__(self):
        return "<missing>"


_MISSING = _Missing()
_NODEFAULT = object()


def maybe(v, c):
    if isinstance(v, MaybeV):
        return MaybeV(v.v, v.c * c)
    return MaybeV(v, c)


def path_ind(p):
    r = P1
    for c, t in p:
        r = r * (c if t else P1 - c)
    return r


def join_lay(x, y):
    if x == y:
        return x
    if x is CST or x == CST:
        return y
    if y is CST or y == CST:
        return x
    return UNK


def le_kind(a, b):
    return "bifc".index(a) <= "bifc".index(b)


def has_nan(p):
    return any(a.tag == "nan" for a in P.atoms_deep(p))


def mkstr(parts):
    s = StrV(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def describe(v):
    if isinstance(v, (Ext, ExtObj)):
        return v.path
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, AV):
        return P.poly_str(v.term)[:40]
    return type(v).__name__


def iterable(I, v):
    return not (v is None or isinstance(v, (Func, Bound, ModuleV)) or (isinstance(v, AV) and v.shape == ()))


def func_locals(n):
    """Names local to a function."""
    names = set()
    a = n.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    out = set()

    def walk(node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(node.name)
            return
        if isinstance(node, ast.Lambda):
            return
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(node):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, (ast.Store, ast.Del)):
            names.add(node.id)
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            for al in node.names:
                names.add((al.asname or al.name).split(".")[0])
        if isinstance(node, ast.ExceptHandler) and node.name:
            names.add(node.name)
        if isinstance(node, (ast.Global, ast.Nonlocal)):
            out.update(node.names)
        if isinstance(node, (ast.MatchAs, ast.MatchStar)) and node.name:
            names.add(node.name)
        for c in ast.iter_child_nodes(node):
            walk(c)

    body = n.body if isinstance(n.body, list) else [n.body]
    for s in body:
        walk(s)
    return names - out


def is_generator(n):
    body = n.body if isinstance(n.body, list) else []
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


BIN_DUNDER = {
    "Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
    "Div": ("__truediv__", "__rtruediv__"), "FloorDiv": ("__floordiv__", "__rfloordiv__"),
    "Mod": ("__mod__", "__rmod__"), "Pow": ("__pow__", "__rpow__"), "MatMult": ("__matmul__", "__rmatmul__"),
    "BitAnd": ("__and__", "__rand__"), "BitOr": ("__or__", "__ror__"), "BitXor": ("__xor__", "__rxor__"),
    "LShift": ("__lshift__", "__rlshift__"), "RShift": ("__rshift__", "__rrshift__"),
}
INPLACE_DUNDER = {
    "Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__",
}
