"""Abstract values of the interpreter."""
from fractions import Fraction as F
import itertools

from . import poly as P
from .poly import Poly, as_poly, ZERO, P1

ANY = "*"  # polymorphic unit (0, inf, nan)


class AxInfo:
    """Position structure along one array axis.

    dom: 'g' generic index, 'r' real space, 'k' frequency space.
    org: index (Poly, mod n) of the coordinate origin.
    tw : index (Poly, mod n) where the origin of the *conjugate* domain ends up after a plain DFT
         (0: no linear phase ramp).  A DFT swaps org and tw.
    """

    __slots__ = ("dom", "org", "tw")

    def __init__(self, dom, org, tw=ZERO):
        self.dom, self.org, self.tw = dom, org, tw

    def __eq__(self, o):
        return isinstance(o, AxInfo) and (self.dom, self.org, self.tw) == (o.dom, o.org, o.tw)

    def __hash__(self):
        return hash((self.dom, self.org.id, None if self.tw is None else self.tw.id))

    def __repr__(self):
        return f"{self.dom}@{self.org!r}" + ("" if self.tw == ZERO else f"~{self.tw!r}")


CST = "C"  # constant along the axis
UNK = None  # unknown structure


class AV:
    """Abstract number / ndarray value (immutable)."""

    __slots__ = ("shape", "kind", "unit", "lay", "term", "elems", "restr", "pt")

    def __init__(self, shape, kind, unit, term, lay=None, elems=None, restr=None, pt="nd"):
        self.shape = shape
        self.kind = kind
        self.unit = unit
        self.elems = elems
        if elems is not None:
            term = stack_term([e.term for e in elems], len(shape))
        self.term = term
        if lay is None and shape is not None:
            lay = tuple(UNK for _ in shape)
        self.lay = lay
        self.restr = restr
        self.pt = pt

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def but(self, **kw):
        d = dict(
            shape=self.shape, kind=self.kind, unit=self.unit, term=self.term, lay=self.lay, elems=self.elems,
            restr=self.restr, pt=self.pt,
        )
        if "term" in kw and "elems" not in kw:
            d["elems"] = None
        d.update(kw)
        return AV(**d)

    def key(self):
        return (self.shape, self.kind, self.unit, self.term, self.lay, self.pt, self.restr)

    def __eq__(self, o):
        return isinstance(o, AV) and self.key() == o.key()

    def __hash__(self):
        return hash((self.shape, self.kind, self.term))

    def __repr__(self):
        return f"AV(shape={self.shape}, {self.kind}, u={self.unit}, lay={self.lay}, t={P.poly_str(self.term)[:300]})"


def stack_term(terms, nd):
    if all(t == terms[0] for t in terms):
        return terms[0]
    return as_poly(
        P.mk_atom("stack", (P.Ax(-nd),) + tuple(terms), real=all(P.is_real(t) for t in terms),
                  nonneg=all(P.is_nonneg(t) for t in terms))
    ) if terms else as_poly(P.mk_atom("empty", ()))


class Ref:
    """Reference to a heap cell."""

    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return type(self) is type(o) and self.id == o.id

    def __hash__(self):
        return hash((type(self).__name__, self.id))

    def __repr__(self):
        return f"{type(self).__name__}#{self.id}"


class Arr(Ref):
    pass


class ListRef(Ref):
    pass


class DictRef(Ref):
    pass


class SetRef(Ref):
    pass


class Obj(Ref):
    pass


class InstDict:
    """obj.__dict__ view."""

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, InstDict) and self.obj == o.obj

    def __hash__(self):
        return hash(self.obj)


class Cond:
    """Value that is `a` where indicator c holds, else `b` (kinds too different to merge)."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return f"Cond({self.c!r} ? {self.a!r} : {self.b!r})"


class MaybeV:
    """Slot that is present only where indicator c holds."""

    def __init__(self, v, c):
        self.v, self.c = v, c

    def __eq__(self, o):
        return isinstance(o, MaybeV) and self.v == o.v and self.c == o.c

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"Maybe({self.v!r})"


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, SliceV) and (self.a, self.b, self.c) == (o.a, o.b, o.c)

    def __hash__(self):
        return hash((self.a, self.b, self.c))

    def __repr__(self):
        return f"slice({self.a},{self.b},{self.c})"


class RangeV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c  # Polys

    def __eq__(self, o):
        return isinstance(o, RangeV) and (self.a, self.b, self.c) == (o.a, o.b, o.c)

    def __hash__(self):
        return hash((self.a, self.b, self.c))


class SymSeq:
    """Immutable symbolic-length sequence: element is generic in loop axis `tag`."""

    def __init__(self, length, elem, tag):
        self.length, self.elem, self.tag = length, elem, tag

    def __eq__(self, o):
        return isinstance(o, SymSeq) and (self.length, self.elem, self.tag) == (o.length, o.elem, o.tag)

    def __hash__(self):
        return hash((self.length, self.tag))


class StrV:
    """Partially known string: parts are str or abstract values (with format info)."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrV):
                out.extend(p.parts)
            else:
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            elif p != "":
                merged.append(p)
        self.parts = tuple(merged)

    def __eq__(self, o):
        return isinstance(o, StrV) and self.parts == o.parts

    def __hash__(self):
        return hash(len(self.parts))

    def __repr__(self):
        return "Str(" + "".join(p if isinstance(p, str) else "{..}" for p in self.parts) + ")"


class FmtPart:
    def __init__(self, val, conv, spec):
        self.val, self.conv, self.spec = val, conv, spec

    def __eq__(self, o):
        return isinstance(o, FmtPart) and (self.val, self.conv, self.spec) == (o.val, o.conv, o.spec)

    def __hash__(self):
        return hash(self.conv)


class Func:
    """User function (AST + closure)."""

    def __init__(self, node, module, env, cls=None, defaults=(), kwdefaults=None, name=None, qual=None):
        self.node, self.module, self.env = node, module, env
        self.cls = cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.name = name or getattr(node, "name", "<lambda>")
        self.qual = qual or self.name
        self.locals = None
        self.is_gen = False

    def __repr__(self):
        return f"<func {self.module.name}.{self.qual}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.func == o.func and self.self_ == o.self_

    def __hash__(self):
        return hash((id(self.func),))

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self_!r}>"


class Builtin:
    """Python-implemented callable: fn(interp, args, kwargs) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class ClassV:
    def __init__(self, name, bases, env, module, node=None, builtin=None):
        self.name, self.bases, self.env, self.module, self.node = name, bases, env, module, node
        self.builtin = builtin  # python type / marker for builtin classes
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)

    def __repr__(self):
        return f"<class {self.name}>"


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleV:
    """A package module of the analysed project."""

    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = None

    def __repr__(self):
        return f"<module {self.name}>"


class Ext:
    """Reference to an external library name (dotted path)."""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and self.path == o.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f"<ext {self.path}>"


class ExtObj:
    """Opaque instance coming from an external library."""

    _ids = itertools.count(1)

    def __init__(self, path, uid=None):
        self.path = path
        self.uid = uid if uid is not None else next(ExtObj._ids)

    def __eq__(self, o):
        return isinstance(o, ExtObj) and (self.path, self.uid) == (o.path, o.uid)

    def __hash__(self):
        return hash((self.path, self.uid))

    def __repr__(self):
        return f"<extobj {self.path}#{self.uid}>"


class ExtMeth:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<extmeth {self.obj!r}.{self.name}>"


class Top:
    """Unknown value."""

    def __init__(self, why=""):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"Top({self.why})"


class Union:
    def __init__(self, vals):
        self.vals = tuple(vals)

    def __eq__(self, o):
        return isinstance(o, Union) and self.vals == o.vals

    def __hash__(self):
        return hash(len(self.vals))

    def __repr__(self):
        return f"Union{self.vals}"


class ExcV:
    """Exception instance."""

    def __init__(self, cls, args=(), loc=None, implicit=False):
        self.cls, self.args, self.loc, self.implicit = cls, args, loc, implicit

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassV) else self.cls.__name__

    def __repr__(self):
        return f"Exc({self.name} at {self.loc})"


class NotImpl(Exception):
    """Interpreter limitation."""
