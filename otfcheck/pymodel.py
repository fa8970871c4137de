"""Models of Python built-in types and functions, and of small stdlib helpers."""
import string as _string

from . import poly as P
from .poly import P1, ZERO, F, as_poly, mk_atom, Poly
from .state import *
from .values import *
from .interp import (
    _MISSING, boolv, num, intv, indv, StaticM, ClassM, CachedProp, PartialV, PartialMethod, LruFunc, SuppressCM,
    GenCMFactory, IterRef, mkstr, describe, has_nan, BUILTIN_EXC, Dead,
)


class SymIter:
    """Lazy iterable of symbolic length: fn(I, i, tag=None) -> element."""

    def __init__(self, length, fn):
        self.length, self.fn = length, fn


class InfIter:
    def __init__(self, fn):
        self.fn = fn  # fn(I, k)


class DTypeV:
    """numpy dtype object."""

    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, DTypeV) and self.kind == o.kind

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"dtype({self.kind})"


class DictView:
    def __init__(self, ref, what):
        self.ref, self.what = ref, what


# ------------------------------------------------------------------ iteration
def to_items(I, v):
    v = I.res(v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Cond):
        def side(x):
            def run():
                it = to_items(I, x)
                return tuple(it) if it is not None else None
            return run

        r = I.cond_fork(v.c, side(v.a), side(v.b))
        return list(r) if isinstance(r, tuple) else None
    if isinstance(v, (ListRef, SetRef)):
        it = resolve_items(I, I.cell(v).items)
        if getattr(it, "seq", None) is not None:
            return to_items(I, it.seq)
        return list(it) if isinstance(it, tuple) else None
    if isinstance(v, DictRef):
        d = I.cell(v).d
        if any(isinstance(x, MaybeV) for x in d.values()):
            return None
        return list(d)
    if isinstance(v, DictView):
        return view_items(I, v)
    if isinstance(v, InstDict):
        return list(I.cell(v.obj).fields)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, IterRef):
        c = I.cell(v)
        if c.items is None:
            return None
        out = list(c.items[c.pos:])
        I.set_cell(v, IterCell(c.items, len(c.items)))
        return out
    if isinstance(v, RangeV):
        return range_items(v)
    if isinstance(v, SymSeq):
        n = v.length.const()
        if n is not None and n <= 512:
            return [I.thaw(symseq_at(I, v, as_poly(k))) for k in range(int(n))]
        return None
    if isinstance(v, SymIter):
        n = v.length.const()
        if n is not None and n <= 512:
            return [v.fn(I, as_poly(k)) for k in range(int(n))]
        return None
    if isinstance(v, (Arr, AV)):
        a = I.arr(v)
        if a.shape == () or a.shape is None:
            if a.shape == ():
                I.throw("TypeError", "iteration over a 0-d array")
            return None
        n = I.np.vshape(I, a)[0].const()
        if n is None or n > 1024:
            return None
        return [I.np.row(I, v, as_poly(k)) for k in range(int(n))]
    if isinstance(v, ExtObj):
        return I.np.ext_children(I, v)
    return None


def resolve_items(I, it):
    while isinstance(it, CondItems_()):
        k = I.known(it.c)
        if k is None:
            return it
        it = it.a if k else it.b
    return it


def CondItems_():
    from .interp import CondItems

    return CondItems


def range_items(v):
    a, b, c = v.a.const(), v.b.const(), v.c.const()
    if c is None:
        return None
    if a is not None and b is not None:
        r = range(int(a), int(b), int(c))
        if len(r) > 2048:
            return None
        return [intv(k) for k in r]
    d = (v.b - v.a).const()
    if d is not None and c == 1:
        return [intv(v.a + k) for k in range(max(0, int(d)))] if d <= 2048 else None
    return None


def symseq_at(I, s, i):
    def f(v):
        if isinstance(v, AV):
            return I.np.subst_axis(I, v, s.tag, i)
        if isinstance(v, tuple):
            return tuple(f(x) for x in v)
        return v

    return f(s.elem)


def retag(I, v, old, new):
    if isinstance(v, AV):
        return v.but(term=P.remap_axes(v.term, {old: new}), elems=None if v.elems is None else tuple(retag(I, e, old, new) for e in v.elems))
    if isinstance(v, tuple):
        return tuple(retag(I, x, old, new) for x in v)
    return v


def sym_iter(I, v):
    """(length, elem_at(I, i, tag=None)) for symbolic-length iterables."""
    v = I.res(v)
    if isinstance(v, RangeV):
        if v.c.const() == 1:
            n = v.b - v.a

            def at(I, i, tag=None):
                if tag is not None:
                    return intv(v.a + P.mk_ix(n, P.Ax(tag)))
                return intv(v.a + i)

            return n, at
        if v.c.const() == -1:
            n = v.a - v.b

            def at(I, i, tag=None):
                if tag is not None:
                    return intv(v.a - P.mk_ix(n, P.Ax(tag)))
                return intv(v.a - i)

            return n, at
        return None
    if isinstance(v, (Arr, AV)):
        a = I.arr(v)
        if not a.shape:
            return None
        n = I.np.vshape(I, a)[0]

        def at(I, i, tag=None):
            if tag is not None:
                return I.thaw(I.np.generic_row(I, I.arr(v), tag))
            return I.np.row(I, v, i)

        return n, at
    if isinstance(v, ListRef):
        it = resolve_items(I, I.cell(v).items)
        if getattr(it, "seq", None) is not None:
            return sym_iter(I, it.seq)
    if isinstance(v, SymSeq):
        def at(I, i, tag=None):
            if tag is not None:
                return I.thaw(retag(I, v.elem, v.tag, tag))
            return I.thaw(symseq_at(I, v, i))

        return v.length, at
    if isinstance(v, SymIter):
        return v.length, v.fn
    items = to_items(I, v)
    if items is not None:
        return None
    return None


def as_sym(I, v):
    """Uniform view of any iterable: ('c', items) | ('s', length, at) | ('i', fn)"""
    v = I.res(v)
    if isinstance(v, InfIter):
        return ("i", v.fn)
    items = to_items(I, v)
    if items is not None:
        return ("c", items)
    s = sym_iter(I, v)
    if s is not None:
        return ("s",) + s
    raise NotImpl(f"iterating {v!r:.80}")


def make_zip(I, its, strict=False):
    its = [as_sym(I, x) for x in its]
    if not its:
        return I_iter(I, [])
    conc = [x for x in its if x[0] == "c"]
    if conc:
        n = min(len(x[1]) for x in conc)
        syms = [x for x in its if x[0] == "s"]
        for x in syms:
            d = x[1] - n
            if P.nonneg_by_sign(d) is not True and not (P.sign(d) is not None and P.sign(d) >= 0):
                if P.sign(d) == -1:
                    n = min(n, int(x[1].const())) if x[1].const() is not None else n
                else:
                    raise NotImpl("zip of sequences with incomparable lengths")
        out = []
        for k in range(n):
            row = []
            for x in its:
                if x[0] == "c":
                    row.append(x[1][k])
                elif x[0] == "s":
                    row.append(x[2](I, as_poly(k)))
                else:
                    row.append(x[1](I, as_poly(k)))
            out.append(tuple(row))
        return I_iter(I, out)
    syms = [x for x in its if x[0] == "s"]
    if not syms:
        raise NotImpl("zip of infinite iterators")
    n = syms[0][1]
    for x in syms[1:]:
        if x[1] != n:
            s = P.sign(x[1] - n)
            if s is None:
                I.event("shape", f"zip of sequences of lengths {n!r} and {x[1]!r}")
            elif s < 0:
                n = x[1]

    def at(I, i, tag=None):
        return tuple(x[2](I, i, tag) if x[0] == "s" else x[1](I, i if i is not None else P.mk_ix(n, P.Ax(tag))) for x in its)

    return SymIter(n, at)


def I_iter(I, items):
    return IterRef(I.alloc(IterCell(tuple(items))))


def make_enumerate(I, it, start):
    x = as_sym(I, it)
    if x[0] == "c":
        return I_iter(I, [(intv(start + k), e) for k, e in enumerate(x[1])])
    if x[0] == "s":
        def at(I, i, tag=None):
            ii = i if i is not None else P.mk_ix(x[1], P.Ax(tag))
            return (intv(start + ii), x[2](I, i, tag))

        return SymIter(x[1], at)
    raise NotImpl("enumerate infinite")


class ExtGrid:
    pass


# ------------------------------------------------------------------ containers
def dict_items_of(I, src):
    src = I.res(src)
    if isinstance(src, DictRef):
        return list(I.cell(src).d.items())
    if isinstance(src, InstDict):
        return list(I.cell(src.obj).fields.items())
    if isinstance(src, Obj):
        m = I.class_lookup(I.cell(src).cls, "keys")
    items = to_items(I, src)
    if items is not None:
        out = []
        for x in items:
            y = to_items(I, x)
            if y is None or len(y) != 2:
                raise NotImpl("dict from pairs")
            out.append((I.dkey(y[0]), y[1]))
        return out
    raise NotImpl(f"mapping {src!r:.60}")


def symbolic_key(k):
    """Keys whose equality with other keys depends on runtime values."""
    if isinstance(k, AV):
        return k.term.const() is None
    return isinstance(k, tuple) and any(symbolic_key(x) for x in k)


def key_eq(I, k, q):
    """Equality of a symbolic key with another key (bool or indicator)."""
    if not (isinstance(q, (AV, tuple)) and (isinstance(k, tuple) == isinstance(q, tuple))):
        return False
    e = eq_ind(I, k, q)
    if not isinstance(e, bool):
        t = I.known(e)
        if t is not None:
            return t
    return e


def dict_get(I, ref, key, default=_MISSING, what="key"):
    d = I.cell(ref).d
    key = I.dkey(key)
    return dict_lookup(I, d, key, default)


def dict_lookup(I, d, key, default):
    def rest(k):
        return {kk: vv for kk, vv in d.items() if kk is not k}

    v = d.get(key, _MISSING)
    if v is not _MISSING:
        v = I.res(v)
        if isinstance(v, MaybeV):
            if symbolic_key(key) and any(key_eq(I, key, q) is not False for q in d if q != key):
                return I.cond_fork(v.c, lambda: I.res(v.v), lambda: dict_lookup(I, {kk: vv for kk, vv in d.items() if kk != key}, key, default))
            if default is _MISSING:
                return I.slot_read(v, "key", key)
            return I.cond_fork(v.c, lambda: I.res(v.v), lambda: default)
        return v
    if isinstance(key, (StrV, Top)) or symbolic_key(key):
        # unknown key: partition over the keys
        if symbolic_key(key):
            for k, x in reversed(list(d.items())):
                c = key_eq(I, key, k)
                if c is False:
                    continue
                x = I.res(x)
                if isinstance(x, MaybeV):
                    c, x = as_poly(int(c)) * x.c if isinstance(c, bool) else simp(c * x.c), x.v
                    if c.const() is not None:
                        c = bool(c.const())
                    elif I.known(c) is not None:
                        c = I.known(c)
                    if c is False:
                        continue
                if c is True:
                    return I.res(x)
                return I.cond_fork(c, lambda: I.res(x), lambda: dict_lookup(I, rest(k), key, default))
        elif d:
            c = fresh_ind("keyhit")
            if default is _MISSING:
                I.maybe_throw(P1 - c, "KeyError", key)
            return Top("dict lookup with unknown key")
    if default is not _MISSING:
        return default
    I.throw("KeyError", key)


def dict_set(I, ref, key, v):
    c = I.cell(ref)
    I.check_owner(c, f"assignment to key {key!r}")
    d = dict(c.d)
    key = I.dkey(key)
    if symbolic_key(key):
        for q, old in c.d.items():
            if q != key and not isinstance(old, MaybeV):
                e = key_eq(I, key, q)
                if e is not False:
                    d[q] = v if e is True else Cond(e, v, old)
    d[key] = v
    I.set_cell(ref, DictCell(d, c.owner))


def dict_del(I, ref, key, missing_ok=False):
    c = I.cell(ref)
    key = I.dkey(key)
    if key not in c.d:
        if missing_ok:
            return
        I.throw("KeyError", key)
    v = c.d[key]
    if isinstance(v, MaybeV) and not missing_ok:
        I.maybe_throw(P1 - v.c, "KeyError", key)
        c = I.cell(ref)
    I.check_owner(c, f"deletion of key {key!r}")
    d = dict(c.d)
    d.pop(key, None)
    I.set_cell(ref, DictCell(d, c.owner))


def dict_update(I, ref, args, kwargs):
    c = I.cell(ref)
    I.check_owner(c, "update()")
    d = dict(c.d)
    for a in args:
        for k, v in dict_items_of(I, a):
            if isinstance(v, MaybeV):
                old = d.get(k, _MISSING)
                if old is _MISSING:
                    d[k] = v
                else:
                    d[k] = I.join_slot(v.c, v.v, old)
            else:
                d[k] = v
    for k, v in kwargs.items():
        d[k] = v
    I.set_cell(ref, DictCell(d, c.owner))


def view_items(I, v):
    if isinstance(v.ref, InstDict):
        d = I.cell(v.ref.obj).fields
    else:
        d = I.cell(v.ref).d
    if any(isinstance(I.res(x), MaybeV) for x in d.values()):
        bad = [k for k, x in d.items() if isinstance(I.res(x), MaybeV)]
        if not isinstance(v.ref, InstDict):
            raise NotImpl(f"iterating a dict with uncertain keys {bad}")
        # instance dictionary: uncertain fields -> decide by forking is not possible here
        raise NotImpl(f"iterating an instance dict with uncertain keys {bad}")
    if v.what == "keys":
        return list(d)
    if v.what == "values":
        return list(d.values())
    return [(k, x) for k, x in d.items()]


def list_extend(I, ref, v):
    if I.open_items(ref) is not None or I.open_items(v) is not None:
        return I.split_items(ref, lambda: I.split_items(v, lambda: list_extend(I, ref, v)))
    items = to_items(I, v)
    c = I.cell(ref)
    c = ListCell(resolve_items(I, c.items), c.owner)
    I.check_owner(c, "extend()")
    if items is None or not isinstance(c.items, tuple):
        from .interp import GrowItems

        if isinstance(c.items, GrowItems):
            I.set_cell(ref, ListCell(GrowItems(c.items.tag), c.owner))
            return
        raise NotImpl("extending a list by an unknown number of items")
    I.set_cell(ref, ListCell(c.items + tuple(items), c.owner))


def set_update(I, ref, vs):
    c = I.cell(ref)
    I.check_owner(c, "update()")
    out = list(c.items)
    for v in vs:
        items = to_items(I, v)
        if items is None:
            raise NotImpl("set update")
        for x in items:
            if not any(I.same_key(x, y) for y in out):
                out.append(x)
    I.set_cell(ref, SetCell(tuple(out), c.owner))


def const_int(I, v):
    v = I.res(v)
    if isinstance(v, Arr):
        v = I.arr(v)
    if isinstance(v, AV) and v.shape == ():
        c = v.term.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def py_slice(I, s):
    out = []
    for x in (s.a, s.b, s.c):
        if x is None:
            out.append(None)
            continue
        k = const_int(I, x)
        if k is None:
            raise NotImpl("slicing a sequence with an unknown bound")
        out.append(k)
    return slice(*out)


def getitem(I, o, ix):
    if isinstance(o, ListRef):
        return I.split_items(o, lambda: getitem_(I, o, ix))
    return getitem_(I, o, ix)


def getitem_(I, o, ix):
    if isinstance(o, (Arr, AV)):
        return I.np.getitem(I, o, ix)
    if isinstance(o, Top):
        return Top("item")
    if isinstance(o, (tuple, str, ListRef)):
        items = o
        if isinstance(o, ListRef):
            items = resolve_items(I, I.cell(o).items)
            if not isinstance(items, (tuple,)):
                from .interp import GrowItems

                if isinstance(items, GrowItems):
                    return Top("grown list") if items.seq is None else getitem_(I, items.seq, ix)
                raise NotImpl("indexing a list of unknown length")
        if isinstance(ix, SliceV):
            r = items[py_slice(I, ix)]
            return I.new_list(r) if isinstance(o, ListRef) else r
        k = const_int(I, ix)
        if k is None:
            if isinstance(ix, (AV,)) and items and isinstance(items, tuple):
                return sym_index(I, items, ix.term)
            if isinstance(ix, (str, tuple, type(None))):
                I.throw("TypeError", "indices must be integers")
            raise NotImpl("indexing a sequence with an unknown index")
        if isinstance(ix, AV) and ix.kind == "f":
            I.throw("TypeError", "indices must be integers")
        if not -len(items) <= k < len(items):
            I.throw("IndexError", "index out of range")
        return items[k]
    if isinstance(o, StrV):
        if isinstance(ix, SliceV):
            try:
                sl = py_slice(I, ix)
            except NotImpl:
                return StrV([Top("slice")])
            parts = list(o.parts)
            if sl.start in (None, 0) and sl.stop is not None and sl.stop < 0 and sl.step is None:
                if isinstance(parts[-1], str) and len(parts[-1]) >= -sl.stop:
                    parts[-1] = parts[-1][: sl.stop]
                    return mkstr(parts)
            if sl.start is not None and sl.start > 0 and sl.stop is None and sl.step is None:
                if isinstance(parts[0], str) and len(parts[0]) >= sl.start:
                    parts[0] = parts[0][sl.start:]
                    return mkstr(parts)
        return StrV([Top("substr")])
    if isinstance(o, DictRef):
        return dict_get(I, o, ix)
    if isinstance(o, InstDict):
        v = I.cell(o.obj).fields.get(ix, _MISSING)
        if v is _MISSING:
            I.throw("KeyError", ix)
        return I.slot_read(v, "key", ix)
    if isinstance(o, RangeV):
        k = const_int(I, ix)
        if isinstance(ix, SliceV):
            raise NotImpl("slice of range")
        t = ix.term
        return intv(o.a + t * o.c)
    if isinstance(o, SymSeq):
        if isinstance(ix, SliceV):
            raise NotImpl("slice of symbolic sequence")
        t = ix.term
        if P.sign(t) == -1:
            t = t + o.length
        return I.thaw(symseq_at(I, o, t))
    if isinstance(o, Ext):
        return I.np.ext_getitem(I, o, ix)
    if isinstance(o, ExtObj):
        kids = I.np.ext_children(I, o)
        if kids is not None:
            if isinstance(ix, SliceV):
                return tuple(kids[py_slice(I, ix)])
            if isinstance(ix, tuple):
                r = o
                for x in ix:
                    r = getitem(I, r, x)
                return r
            k = const_int(I, ix)
            if k is not None:
                if not -len(kids) <= k < len(kids):
                    I.throw("IndexError", "index out of range")
                return kids[k]
        if isinstance(ix, SliceV):
            return ExtObj(f"{o.path}[{fmt_ix(I, ix)}]", uid=f"{o.uid}[{fmt_ix(I, ix)}]")
        return ExtObj(f"{o.path}[]", uid=f"{o.uid}[{fmt_ix(I, ix)}]")
    if isinstance(o, Obj):
        m = I.class_lookup(I.cell(o).cls, "__getitem__")
        if m is not None:
            return I.call(I.bind(m, o), [ix], {})
        I.throw("TypeError", "object is not subscriptable")
    if isinstance(o, ClassV):
        return o  # generic alias
    if isinstance(o, DictView):
        I.throw("TypeError", "dict view is not subscriptable")
    I.type_error(f"{describe(o)} is not subscriptable", o)


def sym_index(I, items, t):
    """items[t] for an index known only symbolically: case split."""
    k = items[0]
    n = len(items)
    if all(x == items[0] for x in items[1:]):
        return items[0]

    def go(j):
        if j == n - 1:
            return items[j]
        return I.cond_fork(P.mk_ind("eq", t - j), lambda: items[j], lambda: go(j + 1))

    return go(0)


def fmt_ix(I, ix):
    if isinstance(ix, SliceV):
        return ":".join("" if x is None else fmt_ix(I, x) for x in (ix.a, ix.b, ix.c))
    if isinstance(ix, AV):
        return P.poly_str(ix.term)
    if isinstance(ix, tuple):
        return ",".join(fmt_ix(I, x) for x in ix)
    return repr(ix)


def setitem(I, o, ix, v):
    if isinstance(o, Arr):
        return I.np.setitem(I, o, ix, v)
    if isinstance(o, DictRef):
        return dict_set(I, o, ix, v)
    if isinstance(o, InstDict):
        return I.set_field(o.obj, ix, v)
    if isinstance(o, ListRef):
        if I.open_items(o) is not None:
            return I.split_items(o, lambda: setitem(I, o, ix, v))
        c = I.cell(o)
        I.check_owner(c, "item assignment")
        its = resolve_items(I, c.items)
        if not isinstance(its, tuple):
            from .interp import GrowItems

            I.set_cell(o, ListCell(GrowItems(its.tag), c.owner))
            return
        items = list(its)
        if isinstance(ix, SliceV):
            new = to_items(I, v)
            if new is None:
                raise NotImpl("slice assignment")
            items[py_slice(I, ix)] = new
        else:
            k = const_int(I, ix)
            if k is None:
                raise NotImpl("list assignment at unknown index")
            if not -len(items) <= k < len(items):
                I.throw("IndexError", "assignment index out of range")
            items[k] = v
        I.set_cell(o, ListCell(tuple(items), c.owner))
        return
    if isinstance(o, Obj):
        m = I.class_lookup(I.cell(o).cls, "__setitem__")
        if m is not None:
            I.call(I.bind(m, o), [ix, v], {})
            return
    if isinstance(o, (ExtObj, Ext)):
        I.event("extset", f"item assignment on {o.path}", data=(o, ix, v))
        return
    if isinstance(o, Top):
        return
    I.type_error("object does not support item assignment", o)


def delitem(I, o, ix):
    if isinstance(o, DictRef):
        return dict_del(I, o, ix)
    if isinstance(o, InstDict):
        v = I.cell(o.obj).fields.get(ix, _MISSING)
        if v is _MISSING:
            I.throw("KeyError", ix)
        if isinstance(v, MaybeV):
            I.maybe_throw(P1 - v.c, "KeyError", ix)
        return I.del_field(o.obj, ix)
    if isinstance(o, ListRef):
        c = I.cell(o)
        I.check_owner(c, "item deletion")
        items = list(c.items)
        if isinstance(ix, SliceV):
            del items[py_slice(I, ix)]
        else:
            k = const_int(I, ix)
            if not -len(items) <= k < len(items):
                I.throw("IndexError", "deletion index out of range")
            del items[k]
        I.set_cell(o, ListCell(tuple(items), c.owner))
        return
    raise NotImpl("del item")


# ------------------------------------------------------------------ comparisons
def eq_ind(I, a, b):
    """Equality as bool or indicator Poly."""
    a, b = I.res(a), I.res(b)
    if isinstance(a, Cond) or isinstance(b, Cond):
        if isinstance(a, Cond):
            x, y = eq_ind(I, a.a, b), eq_ind(I, a.b, b)
            return simp(a.c * as_poly(x if not isinstance(x, bool) else int(x)) + (P1 - a.c) * as_poly(y if not isinstance(y, bool) else int(y)))
        return eq_ind(I, b, a)
    if isinstance(a, AV) and isinstance(b, AV) and a.shape == () and b.shape == ():
        return simp(I.np.cmp_terms(I, "Eq", a, b))
    if isinstance(a, (str, type(None), Ext, ClassV, Func, DTypeV)) and isinstance(b, (str, type(None), Ext, ClassV, Func, DTypeV, AV)) or isinstance(
        b, (str, type(None))
    ) and isinstance(a, (AV, ClassV, tuple, ListRef, DictRef, Obj)):
        if isinstance(a, DTypeV) or isinstance(b, DTypeV):
            return I.np.dtype_kind(I, a) == I.np.dtype_kind(I, b)
        return type(a) is type(b) and a == b
    if isinstance(a, DTypeV) or isinstance(b, DTypeV):
        return I.np.dtype_kind(I, a) == I.np.dtype_kind(I, b)
    if isinstance(a, (StrV, str)) and isinstance(b, (StrV, str)):
        if a == b:
            return True
        return fresh_ind("streq")
    if isinstance(a, StrV) or isinstance(b, StrV):
        return False if isinstance(a, (AV, type(None))) or isinstance(b, (AV, type(None))) else fresh_ind("streq")
    seq = (tuple, ListRef)
    if isinstance(a, seq) and isinstance(b, seq):
        if type(a) is not type(b):
            return False
        x, y = to_items(I, a), to_items(I, b)
        if x is None or y is None:
            return fresh_ind("seqeq") if a != b else True
        if len(x) != len(y):
            return False
        r = P1
        for p, q in zip(x, y):
            e = eq_ind(I, p, q)
            r = r * (as_poly(int(e)) if isinstance(e, bool) else e)
        return simp(r)
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        r = P1
        for p, q in ((a.a, b.a), (a.b, b.b), (a.c, b.c)):
            e = eq_ind(I, p, q)
            r = r * (as_poly(int(e)) if isinstance(e, bool) else e)
        return simp(r)
    if isinstance(a, Top) or isinstance(b, Top) or isinstance(a, ExtObj) or isinstance(b, ExtObj):
        return True if a == b and not isinstance(a, Top) else fresh_ind("eq")
    if isinstance(a, (SetRef, DictRef)) and type(a) is type(b):
        if a == b:
            return True
        if isinstance(a, SetRef):
            x, y = to_items(I, a), to_items(I, b)
            if x is not None and y is not None:
                return len(x) == len(y) and all(any(I.same_key(p, q) for q in y) for p in x)
        else:
            x, y = I.cell(a).d, I.cell(b).d
            if set(map(repr, x)) != set(map(repr, y)):
                return False
            r = P1
            for k in x:
                e = eq_ind(I, x[k], y.get(k))
                r = r * (as_poly(int(e)) if isinstance(e, bool) else e)
            return simp(r)
        return fresh_ind("eq")
    if type(a) is not type(b):
        return False
    return a == b


def simp(p):
    c = p.const()
    return bool(c) if c is not None else p


def is_same(I, a, b):
    a, b = I.res(a), I.res(b)
    if isinstance(a, (Top, )) or isinstance(b, Top):
        return fresh_ind("is")
    if a is None or b is None:
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            return False
        return a is None and b is None
    if isinstance(a, AV) and isinstance(b, AV):
        if a.pt == "bool" and b.pt == "bool":
            return simp(I.np.cmp_terms(I, "Eq", a, b))
        if a.term != b.term:
            return False
        return True if a is b else fresh_ind("is")
    if type(a) is not type(b):
        return False
    if isinstance(a, str):
        return a == b
    if isinstance(a, (Func, Builtin, ClassV, ModuleV)):
        return a is b
    return a == b


def contains(I, cont, x):
    cont = I.res(cont)
    x = I.res(x)
    if isinstance(cont, (DictRef,)):
        d = I.cell(cont).d
        k = I.dkey(x)
        v = d.get(k, _MISSING)
        if v is _MISSING:
            if isinstance(k, (StrV, Top)):
                return fresh_ind("in")
            return key_in(I, d, k) if symbolic_key(k) else False
        v = I.res(v)
        if isinstance(v, MaybeV):
            return key_in(I, d, k) if symbolic_key(k) else simp(v.c)
        return True
    if isinstance(cont, InstDict):
        v = I.cell(cont.obj).fields.get(x, _MISSING)
        if v is _MISSING:
            return False
        v = I.res(v)
        return simp(v.c) if isinstance(v, MaybeV) else True
    if isinstance(cont, str):
        if isinstance(x, str):
            return x in cont
        if isinstance(x, StrV):
            return fresh_ind("in")
        I.throw("TypeError", "'in <string>' requires string")
    if isinstance(cont, (Arr,)):
        e = I.np.compare(I, "Eq", cont, x)
        return simp(I.np.reduce_full(I, "any", I.arr(e)).term)
    if isinstance(cont, RangeV):
        items = range_items(cont)
        if items is None:
            return simp(P.mk_ind("ge", x.term - cont.a) * P.mk_ind("gt", cont.b - x.term))
        return or_all(I, [eq_ind(I, x, y) for y in items])
    if isinstance(cont, DictView):
        if cont.what == "keys":
            return contains(I, cont.ref, x)
    if isinstance(cont, Obj):
        m = I.class_lookup(I.cell(cont).cls, "__contains__")
        if m is not None:
            return simp(I.truth(I.call(I.bind(m, cont), [x], {})))
    items = to_items(I, cont)
    if items is None:
        if isinstance(cont, (ExtObj, Top, StrV)):
            return fresh_ind("in")
        raise NotImpl(f"membership in {cont!r:.60}")
    if isinstance(cont, SetRef) and isinstance(x, (ListRef, DictRef, SetRef)):
        I.throw("TypeError", "unhashable type")
    return or_all(I, [eq_ind(I, x, y) for y in items])


def key_in(I, d, k):
    es = []
    for q, v in d.items():
        e = True if q == k else key_eq(I, k, q)
        v = I.res(v)
        if isinstance(v, MaybeV):
            e = v.c if e is True else False if e is False else simp(e * v.c)
        es.append(e)
    return or_all(I, es)


def or_all(I, es):
    r = ZERO
    for e in es:
        if e is True:
            return True
        if e is False:
            continue
        r = P.ind_or(r, e)
    return simp(r)


def seq_compare(I, op, a, b):
    if op in ("Eq", "NotEq"):
        e = eq_ind(I, a, b)
        if isinstance(e, bool):
            return boolv(e if op == "Eq" else not e)
        return indv(e if op == "Eq" else P1 - e)
    if isinstance(a, str) and isinstance(b, str):
        return boolv({"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])
    if isinstance(a, SetRef) and isinstance(b, SetRef):
        x, y = to_items(I, a), to_items(I, b)
        if x is not None and y is not None:
            sub = all(any(I.same_key(p, q) for q in y) for p in x)
            sup = all(any(I.same_key(p, q) for q in x) for p in y)
            return boolv({"LtE": sub, "GtE": sup, "Lt": sub and not sup, "Gt": sup and not sub}[op])
    if isinstance(a, (tuple, ListRef)) and isinstance(b, (tuple, ListRef)):
        return indv(fresh_ind("seqcmp"))
    if isinstance(a, (ExtObj, Ext)) or isinstance(b, (ExtObj, Ext)):
        return indv(fresh_ind("extcmp"))
    I.type_error(f"'{op}' not supported between {describe(a)} and {describe(b)}", a, b)


def seq_binop(I, op, a, b):
    if op == "Add":
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return mkstr([a, b])
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            x, y = to_items(I, a), to_items(I, b)
            if x is None or y is None:
                raise NotImpl("list + list")
            return I.new_list(x + y)
    if op == "Mult":
        if isinstance(b, (tuple, ListRef, str)) and isinstance(a, AV):
            a, b = b, a
        if isinstance(a, (tuple, ListRef, str)) and isinstance(b, AV):
            k = const_int(I, b)
            if k is None:
                if isinstance(a, (tuple, ListRef)):
                    it = to_items(I, a)
                    if len(it) == 1:
                        return SymSeq(b.term, I.freeze(it[0]), "L0")
                raise NotImpl("sequence repetition by an unknown count")
            if isinstance(a, ListRef):
                return I.new_list(to_items(I, a) * k)
            return a * k
    if op == "Mod" and isinstance(a, (str, StrV)):
        args = b if isinstance(b, tuple) else (b,)
        return percent_format(I, a, args)
    if isinstance(a, SetRef) and isinstance(b, SetRef):
        x, y = to_items(I, a), to_items(I, b)
        if op == "BitOr":
            return I.new_set(x + y)
        has = lambda p, l: any(I.same_key(p, q) for q in l)
        if op == "BitAnd":
            return I.new_set([p for p in x if has(p, y)])
        if op == "Sub":
            return I.new_set([p for p in x if not has(p, y)])
        if op == "BitXor":
            return I.new_set([p for p in x if not has(p, y)] + [p for p in y if not has(p, x)])
    if isinstance(a, DictRef) and isinstance(b, DictRef) and op == "BitOr":
        r = I.new_dict(I.cell(a).d)
        dict_update(I, r, [b], {})
        return r
    if isinstance(a, (DictView, SetRef)) and isinstance(b, (DictView, SetRef)):
        return seq_binop(I, op, I.new_set(to_items(I, a)), I.new_set(to_items(I, b)))
    if isinstance(a, (ListRef, tuple)) and isinstance(b, (Arr,)):
        return I.np.binop(I, op, I.np.asarray_av(I, a), b)
    I.type_error(f"unsupported operand types for {op}: {describe(a)} and {describe(b)}", a, b)


# ------------------------------------------------------------------ strings
def format_value(I, v, conv, spec):
    v = I.res(v)
    if isinstance(spec, str) and spec == "":
        spec = None
    if isinstance(v, Cond):
        return FmtPart(v, conv, spec)
    if isinstance(v, (str, StrV)) and conv == "r":
        return mkstr(["'", v, "'"]) if isinstance(v, StrV) else repr(v)
    if isinstance(v, (str, StrV)):
        if spec is None:
            return v
        if isinstance(v, str) and isinstance(spec, str):
            return format(v, spec)
    if v is None and spec is None:
        return "None"
    if isinstance(v, Obj):
        cls = I.cell(v).cls
        names = ("__repr__",) if conv == "r" else ("__format__", "__str__", "__repr__")
        for nm in names:
            m = I.class_lookup(cls, nm)
            if isinstance(m, Func):
                return I.call(I.bind(m, v), [spec or ""] if nm == "__format__" else [], {})
        return FmtPart(v, conv, spec)
    if isinstance(v, AV) and v.shape == () and spec is None:
        c = v.term.const()
        if c is not None and v.pt == "bool":
            return str(bool(c))
        if c is not None and v.pt == "int":
            return str(int(c))
    return FmtPart(v, conv, spec)


def to_str(I, v, conv=None):
    return mkstr([format_value(I, v, conv, None)])


def percent_format(I, s, args):
    if isinstance(s, StrV):
        return StrV(list(s.parts) + [FmtPart(a, None, None) for a in args])
    import re

    parts = []
    pos = 0
    k = 0
    for m in re.finditer(r"%([-+ #0]*\d*(?:\.\d+)?)([sdifgeEGrxXc%])", s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(2) == "%":
            parts.append("%")
            continue
        if k >= len(args):
            I.throw("TypeError", "not enough arguments for format string")
        parts.append(format_value(I, args[k], "r" if m.group(2) == "r" else None, None if m.group(2) in "sr" and not m.group(1) else m.group(0)))
        k += 1
    parts.append(s[pos:])
    return mkstr(parts)


def str_format(I, s, args, kwargs):
    if isinstance(s, StrV):
        return StrV(list(s.parts) + [FmtPart(a, None, None) for a in args])
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        name = field
        import re

        m = re.match(r"^([^.\[]*)", name)
        head = m.group(1)
        rest = name[len(head):]
        if head == "":
            v = args[auto] if auto < len(args) else I.throw("IndexError", "Replacement index out of range")
            auto += 1
        elif head.isdigit():
            if int(head) >= len(args):
                I.throw("IndexError", "Replacement index out of range")
            v = args[int(head)]
        else:
            if head not in kwargs:
                I.throw("KeyError", head)
            v = kwargs[head]
        for mm in re.finditer(r"\.(\w+)|\[(\w+)\]", rest):
            if mm.group(1):
                v = I.getattr(v, mm.group(1))
            else:
                key = mm.group(2)
                v = I.getitem(v, num(int(key)) if key.isdigit() else key)
        parts.append(format_value(I, v, conv, spec or None))
    return mkstr(parts)


STR_PURE = {
    "lower", "upper", "title", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "replace", "startswith", "endswith", "find",
    "rfind", "index", "count", "capitalize", "isdigit", "isalpha", "isalnum", "isidentifier", "islower", "isupper", "zfill", "center",
    "ljust", "rjust", "partition", "rpartition", "casefold", "swapcase", "isnumeric", "isspace", "expandtabs", "encode", "removeprefix", "removesuffix",
}


def lift_py(I, r):
    if isinstance(r, (bool, int, float)):
        return num(r)
    if isinstance(r, list):
        return I.new_list([lift_py(I, x) for x in r])
    if isinstance(r, tuple):
        return tuple(lift_py(I, x) for x in r)
    return r


def unlift(I, v):
    """abstract -> python constant or raise"""
    v = I.res(v)
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, AV):
        c = v.term.const()
        if c is not None:
            if v.pt == "bool":
                return bool(c)
            return int(c) if c.denominator == 1 and v.kind != "f" else float(c)
    if isinstance(v, tuple):
        return tuple(unlift(I, x) for x in v)
    raise KeyError


def str_method(I, s, name):
    def fn(I, args, kwargs):
        if name == "join":
            items = to_items(I, args[0])
            if items is None:
                return StrV([Top("join")])
            if isinstance(args[0], SetRef):
                return StrV([FmtPart(tuple(items), None, "join")])
            parts = []
            for k, x in enumerate(items):
                x = I.res(x)
                if not isinstance(x, (str, StrV, Top)):
                    I.throw("TypeError", "sequence item: expected str instance")
                if k:
                    parts.append(s)
                parts.append(x)
            return mkstr(parts)
        if name == "format":
            return str_format(I, s, args, kwargs)
        if name == "format_map":
            return str_format(I, s, [], dict(dict_items_of(I, args[0])))
        if isinstance(s, str) and name in STR_PURE:
            try:
                a = [unlift(I, x) for x in args]
            except KeyError:
                return Top("str")
            try:
                return lift_py(I, getattr(s, name)(*a))
            except Exception as e:
                I.throw(type(e).__name__, str(e))
        if name in ("startswith", "endswith", "isdigit", "isalpha"):
            return indv(fresh_ind("str"))
        if name in ("lower", "upper", "title", "strip", "replace", "capitalize", "zfill", "lstrip", "rstrip"):
            return StrV([FmtPart(s, None, name)])
        return Top("str." + name)

    return Builtin("str." + name, fn)


# ------------------------------------------------------------------ attributes of built-in values
def getattr_builtin(I, o, name):
    if isinstance(o, (Arr, AV)):
        return I.np.arr_getattr(I, o, name)
    if isinstance(o, (str, StrV)):
        if hasattr(str, name):
            return str_method(I, o, name)
        I.throw("AttributeError", f"'str' object has no attribute {name!r}")
    if isinstance(o, ListRef):
        return list_method(I, o, name)
    if isinstance(o, DictRef):
        return dict_method(I, o, name)
    if isinstance(o, InstDict):
        return instdict_method(I, o, name)
    if isinstance(o, SetRef):
        return set_method(I, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return Builtin("index", lambda I, a, k: seq_index(I, list(o), a[0]))
        if name == "count":
            return Builtin("count", lambda I, a, k: intv(sum(1 for x in o if eq_ind(I, x, a[0]) is True)))
        I.throw("AttributeError", f"'tuple' object has no attribute {name!r}")
    if isinstance(o, SliceV):
        return {"start": o.a, "stop": o.b, "step": o.c}.get(name) if name in ("start", "stop", "step") else I.throw("AttributeError", name)
    if isinstance(o, RangeV):
        if name in ("start", "stop", "step"):
            return intv({"start": o.a, "stop": o.b, "step": o.c}[name])
    if isinstance(o, ExcV):
        if name == "args":
            return tuple(o.args)
        if hasattr(o, "obj"):
            return I.getattr(o.obj, name)
        if name in ("__class__",):
            return o.cls
        if name in ("with_traceback",):
            return Builtin(name, lambda I, a, k: o)
        if name in ("add_note",):
            return Builtin(name, lambda I, a, k: None)
        return Top("exc." + name)
    if isinstance(o, Func):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name in o.attrs:
            return o.attrs[name]
        if name == "__doc__":
            return None
        if name == "__get__":
            return Builtin("__get__", lambda I, a, k: Bound(o, a[0]) if a[0] is not None else o)
        if name == "__wrapped__":
            I.throw("AttributeError", name)
        if name in ("__module__",):
            return o.module.name
        if name == "__defaults__":
            return tuple(o.defaults)
        if name == "__call__":
            return o
        I.throw("AttributeError", f"function has no attribute {name!r}")
    if isinstance(o, Bound):
        if name == "__self__":
            return o.self_
        if name == "__func__":
            return o.func
        return I.getattr(o.func, name)
    if isinstance(o, Builtin):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return None
        I.throw("AttributeError", name)
    if isinstance(o, (ExtObj, ExtMeth)):
        return I.np.extobj_attr(I, o, name)
    if isinstance(o, Top):
        return Top("attr " + name)
    if isinstance(o, DictView):
        if name == "isdisjoint":
            return Builtin(name, lambda I, a, k: indv(fresh_ind("isdisjoint")))
    if isinstance(o, IterRef):
        if name == "__next__":
            return Builtin("next", lambda I, a, k: next_(I, o))
        I.throw("AttributeError", name)
    if isinstance(o, DTypeV):
        return I.np.dtype_attr(I, o, name)
    if isinstance(o, CachedProp):
        if name == "func":
            return o.f
        if name == "attrname":
            return o.name
        if name == "__get__":
            return Builtin("__get__", lambda I, a, k: I.class_attr_of_obj(a[0], o, o.name))
        if name == "__doc__":
            return None
        I.throw("AttributeError", name)
    if isinstance(o, PartialV):
        return {"func": o.f, "args": o.args}.get(name, Top(name))
    if isinstance(o, LruFunc):
        if name == "cache_clear":
            def clr(I, a, k):
                o.memo.clear()
            return Builtin(name, clr)
        if name == "__wrapped__":
            return o.f
        return I.getattr(o.f, name)
    if isinstance(o, (SymSeq, SymIter)):
        I.throw("AttributeError", name)
    if isinstance(o, StaticM):
        return o.f if name in ("__func__", "__wrapped__") else I.getattr(o.f, name)
    if o is None:
        if name == "__class__":
            return I.builtins["NoneType"]
        I.throw("AttributeError", f"'NoneType' object has no attribute {name!r}")
    if isinstance(o, I.np.FlagNS):
        return o.get(name)
    raise NotImpl(f"attribute {name} of {o!r:.60}")


def seq_index(I, items, x):
    for k, y in enumerate(items):
        e = eq_ind(I, x, y)
        if e is True:
            return intv(k)
        if e is not False:
            raise NotImpl("index() of unknown value")
    I.throw("ValueError", "not in list")


def list_method(I, o, name):
    from .interp import CondItems, GrowItems

    def m(fn):
        return Builtin("list." + name, lambda I, a, k: I.split_items(o, lambda: fn(I, a, k)))

    def cur():
        """Items, once the alternatives are told apart."""
        it = resolve_items(I, I.cell(o).items)
        if isinstance(it, GrowItems):
            raise NotImpl(f"{name}() of a list built by a loop of unknown length")
        return it

    def put(items):
        c = I.cell(o)
        I.check_owner(c, name + "()")
        I.set_cell(o, ListCell(tuple(items), c.owner))

    if name == "append":
        def append(I, a, k):
            def add(it):
                if isinstance(it, CondItems):
                    return CondItems(it.c, add(it.a), add(it.b))
                return GrowItems(it.tag) if isinstance(it, GrowItems) else it + (a[0],)

            c = I.cell(o)
            I.check_owner(c, "append()")
            I.set_cell(o, ListCell(add(resolve_items(I, c.items)), c.owner))
        b = Builtin("list.append", append)
        b.lazy = True
        return b
    if name == "extend":
        return m(lambda I, a, k: list_extend(I, o, a[0]))
    if name == "insert":
        def ins(I, a, k):
            it = list(cur())
            it.insert(const_int(I, a[0]), a[1])
            put(it)
        return m(ins)
    if name == "pop":
        def pop(I, a, k):
            it = list(cur())
            idx = const_int(I, a[0]) if a else -1
            if not it or not -len(it) <= idx < len(it):
                I.throw("IndexError", "pop")
            v = it.pop(idx)
            put(it)
            return v
        return m(pop)
    if name == "remove":
        def rem(I, a, k):
            it = list(cur())
            i = const_int(I, seq_index(I, it, a[0]))
            del it[i]
            put(it)
        return m(rem)
    if name == "clear":
        return m(lambda I, a, k: put(()))
    if name == "copy":
        return m(lambda I, a, k: I.new_list(cur()))
    if name == "reverse":
        return m(lambda I, a, k: put(tuple(reversed(cur()))))
    if name == "sort":
        def srt(I, a, k):
            put(sorted_items(I, list(cur()), k))
        return m(srt)
    if name == "index":
        return m(lambda I, a, k: seq_index(I, list(cur()), a[0]))
    if name == "count":
        return m(lambda I, a, k: intv(sum(1 for x in cur() if eq_ind(I, x, a[0]) is True)))
    if name == "__len__":
        return m(lambda I, a, k: py_len(I, o))
    I.throw("AttributeError", f"'list' object has no attribute {name!r}")


def dict_method(I, o, name):
    def m(fn):
        return Builtin("dict." + name, fn)

    if name == "update":
        def upd(I, a, k):
            dict_update(I, o, a, k)
        return m(upd)
    if name == "get":
        return m(lambda I, a, k: dict_get(I, o, a[0], a[1] if len(a) > 1 else k.get("default")))
    if name == "pop":
        def pop(I, a, k):
            key = I.dkey(a[0])
            v = dict_get(I, o, key, a[1] if len(a) > 1 else _MISSING)
            dict_del(I, o, key, missing_ok=True)
            return v
        return m(pop)
    if name == "setdefault":
        def sd(I, a, k):
            key = I.dkey(a[0])
            d = I.cell(o).d
            if key not in d:
                v = a[1] if len(a) > 1 else None
                dict_set(I, o, key, v)
                return v
            if isinstance(d[key], MaybeV):
                dv = a[1] if len(a) > 1 else None
                v = I.cond_fork(d[key].c, lambda: d[key].v, lambda: dv)
                dict_set(I, o, key, v)
                return v
            return d[key]
        return m(sd)
    if name in ("keys", "values", "items"):
        return m(lambda I, a, k: DictView(o, name))
    if name == "copy":
        return m(lambda I, a, k: I.new_dict(I.cell(o).d))
    if name == "clear":
        def clear(I, a, k):
            c = I.cell(o)
            I.check_owner(c, "clear()")
            I.set_cell(o, DictCell({}, c.owner))
        return m(clear)
    if name == "popitem":
        def popitem(I, a, k):
            d = I.cell(o).d
            if not d:
                I.throw("KeyError", "popitem")
            key = list(d)[-1]
            v = d[key]
            dict_del(I, o, key)
            return (key, v)
        return m(popitem)
    if name == "__contains__":
        return m(lambda I, a, k: cind(contains(I, o, a[0])))
    if name == "__getitem__":
        return m(lambda I, a, k: dict_get(I, o, a[0]))
    if name == "fromkeys":
        return m(lambda I, a, k: I.new_dict({I.dkey(x): (a[1] if len(a) > 1 else None) for x in to_items(I, a[0])}))
    if name == "__len__":
        return m(lambda I, a, k: py_len(I, o))
    I.throw("AttributeError", f"'dict' object has no attribute {name!r}")


def cind(c):
    return boolv(c) if isinstance(c, bool) else indv(c)


def instdict_method(I, o, name):
    obj = o.obj

    def m(fn):
        return Builtin("__dict__." + name, fn)

    if name == "pop":
        def pop(I, a, k):
            v = I.cell(obj).fields.get(a[0], _MISSING)
            if v is _MISSING:
                if len(a) > 1:
                    return a[1]
                I.throw("KeyError", a[0])
            v = I.res(v)
            if isinstance(v, MaybeV):
                if len(a) > 1:
                    r = I.cond_fork(v.c, lambda: v.v, lambda: a[1])
                else:
                    I.maybe_throw(P1 - v.c, "KeyError", a[0])
                    r = v.v
            else:
                r = v
            I.del_field(obj, a[0])
            return r
        return m(pop)
    if name == "get":
        def get(I, a, k):
            v = I.cell(obj).fields.get(a[0], _MISSING)
            if v is _MISSING:
                return a[1] if len(a) > 1 else None
            v = I.res(v)
            if isinstance(v, MaybeV):
                return I.cond_fork(v.c, lambda: v.v, lambda: a[1] if len(a) > 1 else None)
            return v
        return m(get)
    if name == "update":
        def upd(I, a, k):
            for src in a:
                for kk, v in dict_items_of(I, src):
                    I.set_field(obj, kk, v)
            for kk, v in k.items():
                I.set_field(obj, kk, v)
        return m(upd)
    if name in ("keys", "values", "items"):
        return m(lambda I, a, k: DictView(o, name))
    if name == "copy":
        return m(lambda I, a, k: I.new_dict(I.cell(obj).fields))
    if name == "clear":
        def clear(I, a, k):
            for kk in list(I.cell(obj).fields):
                I.del_field(obj, kk)
        return m(clear)
    if name == "setdefault":
        def sd(I, a, k):
            v = I.cell(obj).fields.get(a[0], _MISSING)
            if v is _MISSING:
                I.set_field(obj, a[0], a[1])
                return a[1]
            return I.slot_read(v, "key", a[0])
        return m(sd)
    raise NotImpl("__dict__." + name)


def set_method(I, o, name):
    def m(fn):
        return Builtin("set." + name, fn)

    if name == "add":
        return m(lambda I, a, k: set_update(I, o, [(a[0],)]))
    if name == "update":
        return m(lambda I, a, k: set_update(I, o, a))
    if name in ("discard", "remove"):
        def rem(I, a, k):
            c = I.cell(o)
            I.check_owner(c, name)
            I.set_cell(o, SetCell(tuple(x for x in c.items if not I.same_key(x, a[0])), c.owner))
        return m(rem)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}[name]
        return m(lambda I, a, k: seq_binop(I, op, o, I.new_set(to_items(I, a[0]))))
    if name in ("issubset", "issuperset"):
        return m(lambda I, a, k: seq_compare(I, "LtE" if name == "issubset" else "GtE", o, I.new_set(to_items(I, a[0]))))
    if name == "copy":
        return m(lambda I, a, k: I.new_set(to_items(I, o)))
    I.throw("AttributeError", f"'set' object has no attribute {name!r}")


# ------------------------------------------------------------------ classes
def builtin_class_attr(I, c, name):
    b = c.builtin
    if b == "property":
        if name == "__init__":
            def init(I, args, kwargs):
                self = args[0]
                names = ["fget", "fset", "fdel", "doc"]
                vals = dict(zip(names, args[1:]))
                vals.update(kwargs)
                for n in names:
                    I.set_field(self, n if n != "doc" else "__doc__", vals.get(n))
                return None
            return Builtin("property.__init__", init)
        if name in ("setter", "getter", "deleter"):
            key = {"setter": "fset", "getter": "fget", "deleter": "fdel"}[name]

            def dec(I, args, kwargs):
                self, f = args
                fl = I.cell(self).fields
                d = {k: fl.get(k) for k in ("fget", "fset", "fdel", "__doc__")}
                d[key] = f
                return I.instantiate(I.cell(self).cls, [d["fget"], d["fset"], d["fdel"], d["__doc__"]], {})
            return Builtin("property." + name, dec)
        if name == "__get__":
            return Builtin("__get__", lambda I, a, k: I.call(I.cell(a[0]).fields["fget"], [a[1]], {}) if a[1] is not None else a[0])
        if name == "__set__":
            return Builtin("__set__", lambda I, a, k: I.call(I.cell(a[0]).fields["fset"], [a[1], a[2]], {}))
        if name in ("fget", "fset", "fdel"):
            return None
    if b == "object":
        if name == "__init__":
            return Builtin("object.__init__", lambda I, a, k: None)
        if name == "__setattr__":
            b_ = Builtin("object.__setattr__", lambda I, a, k: I.setattr_default(a[0], a[1], a[2]) if hasattr(I, "setattr_default") else I.set_field(a[0], a[1], a[2]))
            return b_
        if name == "__delattr__":
            return Builtin("object.__delattr__", lambda I, a, k: I.delattr(a[0], a[1]))
        if name == "__getattribute__":
            return Builtin("object.__getattribute__", lambda I, a, k: I.getattr(a[0], a[1]))
    if isinstance(b, type) and issubclass(b, BaseException):
        if name == "__init__":
            def init(I, args, kwargs):
                if isinstance(args[0], Obj):
                    I.set_field(args[0], "args", tuple(args[1:]))
                return None
            return Builtin("exc.__init__", init)
    if b == "dict" and name in ("fromkeys",):
        return Builtin("dict.fromkeys", lambda I, a, k: I.new_dict({I.dkey(x): (a[1] if len(a) > 1 else None) for x in to_items(I, a[0])}))
    if b in ("str", "list", "dict", "set", "tuple", "int", "float") and name not in ("__init__", "__new__", "__set_name__", "__getattr__", "__bool__", "__len__"):
        pyt = {"str": str, "list": list, "dict": dict, "set": set, "tuple": tuple, "int": int, "float": float}[b]
        if hasattr(pyt, name) and not name.startswith("__"):
            return Builtin(f"{b}.{name}", lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k))
    return None


def object_attr(I, o, name):
    if name == "__repr__" or name == "__str__":
        return Builtin(name, lambda I, a, k: StrV([FmtPart(o, "r", None)]))
    if name == "__init__":
        return Builtin(name, lambda I, a, k: None)
    if name == "__setattr__":
        def sa(I, a, k):
            obj, (n, v) = (o, a) if len(a) == 2 else (a[0], a[1:])
            cv = I.class_lookup(I.cell(obj).cls, n)
            if cv is not None and I.is_property(cv):
                return I.call(I.cell(cv).fields["fset"], [obj, v], {})
            I.set_field(obj, n, v)
        return Builtin(name, sa)
    if name == "__delattr__":
        return Builtin(name, lambda I, a, k: I.delattr(o, a[0]))
    if name == "__getattribute__":
        return Builtin(name, lambda I, a, k: I.getattr(o, a[0]))
    if name == "__init_subclass__":
        return Builtin(name, lambda I, a, k: None)
    if name == "__getstate__":
        return Builtin(name, lambda I, a, k: I.new_dict(I.cell(o).fields))
    if name == "__eq__":
        return Builtin(name, lambda I, a, k: boolv(a[-1] == o))
    if name == "__module__":
        c = o if isinstance(o, ClassV) else I.cell(o).cls
        return c.module.name if c.module else "builtins"
    return None


def class_attr(I, c, name):
    if name == "__new__":
        def new(I, a, k):
            return Obj(I.alloc(ObjCell(a[0], {})))
        return Builtin("__new__", new)
    if name == "mro":
        return Builtin("mro", lambda I, a, k: I.new_list(c.mro))
    if name == "__init__" or name == "__repr__":
        return Builtin(name, lambda I, a, k: None)
    if name == "__class__":
        return I.builtins["type"]
    if name == "__subclasses__":
        raise NotImpl("__subclasses__")
    if name == "__annotations__":
        return I.new_dict({})
    return None


def type_name(v, I):
    return None


def py_type(I, v):
    v = I.res(v)
    B = I.builtins
    if isinstance(v, Obj):
        return I.cell(v).cls
    if isinstance(v, AV):
        if v.pt in ("int", "float", "bool", "complex"):
            return B[v.pt]
        return Ext({"f": "numpy.float64", "i": "numpy.int64", "c": "numpy.complex128", "b": "numpy.bool_"}[v.kind])
    if isinstance(v, Arr):
        return Ext("numpy.ndarray")
    if isinstance(v, (str, StrV)):
        return B["str"]
    if isinstance(v, tuple):
        return B["tuple"]
    if isinstance(v, ListRef):
        return B["list"]
    if isinstance(v, DictRef):
        return B["dict"]
    if isinstance(v, SetRef):
        return B["set"]
    if v is None:
        return B["NoneType"]
    if isinstance(v, ClassV):
        return B["type"]
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, SliceV):
        return B["slice"]
    return Top("type")


NUMERIC_ABC = {
    "numbers.Number": "bifc", "numbers.Complex": "bifc", "numbers.Real": "bif", "numbers.Rational": "bi", "numbers.Integral": "bi",
}


def is_instance(I, v, cls):
    v = I.res(v)
    cls = I.res(cls)
    if isinstance(cls, tuple):
        return or_all(I, [is_instance(I, v, c) for c in cls])
    if isinstance(v, Top):
        return fresh_ind("isinstance")
    if isinstance(cls, ClassV):
        b = cls.builtin
        if b == "object":
            return True
        if isinstance(v, Obj):
            return cls in I.cell(v).cls.mro
        if isinstance(v, ExcV):
            return cls in v.cls.mro
        if isinstance(v, AV):
            if v.pt == "nd":
                return {"float": v.kind == "f", "complex": v.kind == "c"}.get(b, False)
            if b == "int":
                return v.pt in ("int", "bool")
            return v.pt == b
        if isinstance(v, (str, StrV)):
            return b == "str"
        if isinstance(v, tuple):
            return b == "tuple"
        if isinstance(v, ListRef):
            return b == "list"
        if isinstance(v, DictRef):
            return b == "dict"
        if isinstance(v, SetRef):
            return b == "set"
        if v is None:
            return b == "NoneType"
        if isinstance(v, SliceV):
            return b == "slice"
        if isinstance(v, RangeV):
            return b == "range"
        if isinstance(v, (ClassV,)):
            return b == "type"
        if isinstance(v, ExtObj):
            return False
        if isinstance(v, (Func, Bound, Builtin)):
            return False
        return False
    if isinstance(cls, Ext):
        p = cls.path
        if p in NUMERIC_ABC:
            if isinstance(v, AV):
                return v.kind in NUMERIC_ABC[p] and not (v.pt == "nd" and v.kind == "b")
            return False
        nd = {"numpy.integer": "i", "numpy.signedinteger": "i", "numpy.floating": "f", "numpy.inexact": "fc", "numpy.number": "ifc", "numpy.generic": "bifc",
              "numpy.bool_": "b", "numpy.float64": "f", "numpy.int64": "i", "numpy.complexfloating": "c", "numpy.complex128": "c"}
        if p in nd:
            return isinstance(v, AV) and v.pt == "nd" and v.kind in nd[p]
        if p == "numpy.ndarray":
            return isinstance(v, Arr)
        last = p.rsplit(".", 1)[-1]
        if last in ("Iterable", "Sized", "Sequence", "Collection", "Container", "Mapping", "MutableMapping", "Callable", "Hashable", "Iterator", "MutableSequence", "Set"):
            t = {
                "Iterable": (tuple, ListRef, DictRef, SetRef, str, StrV, Arr, RangeV, IterRef, SymSeq, SymIter),
                "Sized": (tuple, ListRef, DictRef, SetRef, str, StrV, Arr, RangeV, SymSeq),
                "Collection": (tuple, ListRef, DictRef, SetRef, str, StrV, Arr, RangeV, SymSeq),
                "Container": (tuple, ListRef, DictRef, SetRef, str, StrV, Arr, RangeV, SymSeq),
                "Sequence": (tuple, ListRef, str, StrV, RangeV),
                "MutableSequence": (ListRef,),
                "Mapping": (DictRef,), "MutableMapping": (DictRef,), "Set": (SetRef,),
                "Callable": (Func, Bound, Builtin, ClassV, Ext),
                "Hashable": (tuple, str, StrV, AV, type(None)),
                "Iterator": (IterRef,),
            }[last]
            if isinstance(v, Obj):
                m = {"Iterable": "__iter__", "Sized": "__len__", "Callable": "__call__"}.get(last)
                return bool(m and I.class_lookup(I.cell(v).cls, m))
            return isinstance(v, t)
        if isinstance(v, (ExtObj, Ext)):
            return fresh_ind("isinstance")
        return False
    if isinstance(cls, (ExtObj, Top)):
        return fresh_ind("isinstance")
    I.throw("TypeError", "isinstance() arg 2 must be a type or tuple of types")


def call_builtin_class(I, cls, args, kwargs):
    b = cls.builtin
    if isinstance(b, type) and issubclass(b, BaseException):
        e = ExcV(cls, tuple(args), I.loc(), False)
        e.stack = I.stack()
        return e
    f = CLASS_CTORS.get(b)
    if f is None:
        if isinstance(b, str) and "." in b:
            return ExtObj(b)
        raise NotImpl(f"constructor {b}")
    vals = list(args) + list(kwargs.values())
    if any(isinstance(I.res(v), Cond) for v in vals):
        n = len(args)
        ks = list(kwargs)
        return I.dist(vals, lambda vs: f(I, list(vs[:n]), dict(zip(ks, vs[n:]))))
    return f(I, args, kwargs)


def c_int(I, args, kwargs):
    if not args:
        return num(0)
    v = args[0]
    if isinstance(v, Arr):
        v = scalar_of(I, v)
    if isinstance(v, AV):
        if has_nan(v.term):
            I.throw("ValueError", "cannot convert float NaN to integer")
        if v.kind == "c":
            I.throw("TypeError", "can't convert complex to int")
        I.np.need_dimless(I, v, "int()")
        return AV((), "i", F(0), P.FN["trunc"](v.term) if v.kind == "f" else v.term, pt="int")
    if isinstance(v, str):
        try:
            return num(int(v))
        except ValueError:
            I.throw("ValueError", "invalid literal for int()")
    if isinstance(v, (StrV, Top)):
        return Top("int")
    if isinstance(v, Obj):
        m = I.class_lookup(I.cell(v).cls, "__int__")
        if m:
            return I.call(I.bind(m, v), [], {})
    I.type_error("int() argument must be a number", v)


def scalar_of(I, v):
    a = I.arr(v)
    if a.shape == ():
        return a
    if all(s == P1 for s in a.shape):
        for _ in a.shape:
            a = I.np.take0(I, a)
        return a
    I.throw("TypeError", "only length-1 arrays can be converted to Python scalars")


def c_float(I, args, kwargs):
    if not args:
        return num(0.0)
    v = args[0]
    if isinstance(v, Arr):
        v = scalar_of(I, v)
    if isinstance(v, AV):
        if v.kind == "c":
            I.throw("TypeError", "can't convert complex to float")
        return AV((), "f", v.unit, v.term, pt="float")
    if isinstance(v, str):
        try:
            return num(float(v))
        except ValueError:
            I.throw("ValueError", "could not convert string to float")
    if isinstance(v, (StrV, Top)):
        return Top("float")
    I.type_error("float() argument must be a number", v)


def c_complex(I, args, kwargs):
    if not args:
        return num(0j)
    v = args[0]
    if isinstance(v, Arr):
        v = scalar_of(I, v)
    t = v.term
    if len(args) > 1:
        t = t + I.arr(args[1]).term * P.I
    return AV((), "c", v.unit, t, pt="complex")


def c_bool(I, args, kwargs):
    if not args:
        return boolv(False)
    return indv(I.truth(args[0]))


def c_str(I, args, kwargs):
    if not args:
        return ""
    return to_str(I, args[0])


def c_tuple(I, args, kwargs):
    if not args:
        return ()
    v = I.res(args[0])
    it = to_items(I, v)
    if it is None:
        s = sym_iter(I, v)
        if s is not None:
            return sym_materialise(I, s)
        raise NotImpl("tuple() of unknown length")
    return tuple(it)


_seqtag = itertools.count(1)


def sym_materialise(I, s):
    if isinstance(s, SymSeq):
        return s
    n, at = s
    tag = f"M{next(_seqtag)}"
    return SymSeq(n, I.freeze(at(I, None, tag)), tag)


def c_list(I, args, kwargs):
    if not args:
        return I.new_list(())
    v = I.res(args[0])
    it = to_items(I, v)
    if it is None:
        s = sym_iter(I, v)
        if s is not None:
            return sym_materialise(I, s)
        if isinstance(v, Top):
            return Top("list")
        raise NotImpl("list() of unknown length")
    return I.new_list(it)


def c_set(I, args, kwargs):
    if not args:
        return I.new_set(())
    it = to_items(I, args[0])
    if it is None:
        raise NotImpl("set() of unknown")
    return I.new_set(it)


def c_dict(I, args, kwargs):
    d = {}
    for a in args:
        for k, v in dict_items_of(I, a):
            d[k] = v
    d.update(kwargs)
    return I.new_dict(d)


def c_range(I, args, kwargs):
    ts = []
    for a in args:
        a = I.res(a)
        if isinstance(a, Arr):
            a = scalar_of(I, a)
        if not isinstance(a, AV) or a.kind not in "bi":
            I.throw("TypeError", "range() arguments must be integers")
        ts.append(a.term)
    if len(ts) == 1:
        return RangeV(ZERO, ts[0], P1)
    if len(ts) == 2:
        return RangeV(ts[0], ts[1], P1)
    return RangeV(*ts)


def c_slice(I, args, kwargs):
    if len(args) == 1:
        return SliceV(None, args[0], None)
    if len(args) == 2:
        return SliceV(args[0], args[1], None)
    return SliceV(*args)


def c_property(I, args, kwargs):
    cls = I.builtins["property"]
    o = Obj(I.alloc(ObjCell(cls, {})))
    I.call(builtin_class_attr(I, cls, "__init__"), [o] + list(args), kwargs)
    return o


def c_type(I, args, kwargs):
    if len(args) == 1:
        return py_type(I, args[0])
    raise NotImpl("type() with 3 arguments")


def c_object(I, args, kwargs):
    return Obj(I.alloc(ObjCell(I.builtins["object"], {})))


def c_super(I, args, kwargs):
    if len(args) == 2:
        return Super(args[0], args[1])
    return zero_arg_super(I)


def zero_arg_super(I):
    for fr in reversed(I.frames):
        if fr.cls is not None and fr.func is not None and fr.self_ is not None:
            a = fr.func.node.args
            nm = (a.posonlyargs + a.args)[0].arg
            v = I.st.heap[fr.scopes[-1] if False else find_scope(I, fr, nm)].vars.get(nm, fr.self_)
            return Super(fr.cls, I.res(v))
        break
    I.throw("RuntimeError", "super(): no arguments")


def find_scope(I, fr, nm):
    for s in fr.scopes:
        if nm in I.st.heap[s].vars:
            return s
    return fr.scopes[0]


CLASS_CTORS = {
    "int": c_int, "float": c_float, "complex": c_complex, "bool": c_bool, "str": c_str, "tuple": c_tuple, "list": c_list, "set": c_set,
    "frozenset": c_set, "dict": c_dict, "range": c_range, "slice": c_slice, "property": c_property, "type": c_type, "object": c_object,
    "super": c_super,
    "staticmethod": lambda I, a, k: StaticM(a[0]),
    "classmethod": lambda I, a, k: ClassM(a[0]),
}


# ------------------------------------------------------------------ functions
def py_len(I, v):
    v = I.res(v)
    if isinstance(v, (Arr, AV)):
        a = I.arr(v)
        if a.shape == ():
            I.throw("TypeError", "len() of unsized object")
        return intv(I.np.vshape(I, a)[0])
    if isinstance(v, (tuple, str)):
        return num(len(v))
    if isinstance(v, (ListRef, SetRef)):
        it = resolve_items(I, I.cell(v).items)
        if isinstance(it, tuple):
            return num(len(it))
        from .interp import GrowItems

        if isinstance(it, GrowItems) and it.seq is not None:
            return intv(it.seq.length)
        if isinstance(it, GrowItems):
            return intv(as_poly(mk_atom("sym", (f"?len({it.tag})",), integer=True, nonneg=True)))
        return I.split_items(v, lambda: py_len(I, v))
    if isinstance(v, DictRef):
        d = I.cell(v).d
        n = ZERO
        for x in d.values():
            n = n + (x.c if isinstance(x, MaybeV) else P1)
        return intv(n)
    if isinstance(v, SymSeq):
        return intv(v.length)
    if isinstance(v, RangeV):
        it = range_items(v)
        if it is not None:
            return num(len(it))
        if v.c.const() == 1:
            return intv(v.b - v.a)
        raise NotImpl("len(range)")
    if isinstance(v, DictView):
        return py_len(I, v.ref) if not isinstance(v.ref, InstDict) else num(len(I.cell(v.ref.obj).fields))
    if isinstance(v, Obj):
        m = I.class_lookup(I.cell(v).cls, "__len__")
        if m is not None:
            return I.call(I.bind(m, v), [], {})
    if isinstance(v, (Top, ExtObj, StrV)):
        return intv(as_poly(mk_atom("sym", (f"?len{id(v)}",), integer=True, nonneg=True)))
    I.type_error(f"object of type {describe(v)} has no len()", v)


def sorted_items(I, items, k):
    key = k.get("key")
    rev = k.get("reverse")
    keyed = []
    for x in items:
        y = I.call(key, [x], {}) if key is not None else x
        try:
            keyed.append((unlift(I, y), x))
        except KeyError:
            if len(items) == 1:
                return items
            raise NotImpl("sorting unknown values")
    keyed.sort(key=lambda t: t[0], reverse=bool(rev is not None and unlift(I, rev)))
    return [x for _, x in keyed]


def minmax(I, name, args, kwargs):
    default = kwargs.get("default", _MISSING)
    if len(args) == 1:
        v = I.res(args[0])
        items = to_items(I, v)
        if items is None:
            if isinstance(v, (Arr, AV)):
                a = I.arr(v)
                if len(a.shape) == 1:
                    return I.np.reduce_full(I, name, a).but(pt="nd")
            if isinstance(v, SymSeq) and isinstance(v.elem, AV) and v.elem.shape == ():
                t = P.reduce_axis(name, P.remap_axes(v.elem.term, {v.tag: -1}), -1, v.length)
                return v.elem.but(term=t)
            if isinstance(v, Top):
                return Top(name)
            raise NotImpl(f"{name}() of unknown sequence")
        if not items:
            if default is not _MISSING:
                return default
            I.throw("ValueError", f"{name}() arg is an empty sequence")
    else:
        items = list(args)
    key = kwargs.get("key")
    if key is not None:
        srt = sorted_items(I, items, {"key": key})
        return srt[0] if name == "min" else srt[-1]
    r = I.res(items[0])
    for x in items[1:]:
        r = I.dist([r, x], lambda vs: minmax2(I, name, vs[0], vs[1]))
    return r


def minmax2(I, name, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return min(a, b) if name == "min" else max(a, b)
    if isinstance(a, Top) or isinstance(b, Top):
        return Top(name)
    if isinstance(a, Arr):
        a = I.arr(a)
    if isinstance(b, Arr):
        b = I.arr(b)
    if isinstance(a, AV) and isinstance(b, AV):
        u = I.join_unit(a.unit, b.unit, f"{name}() arguments")
        t = P.FN[name](a.term, b.term)
        if t == a.term:
            return a
        if t == b.term:
            return b
        c = P.cmp_ind(">" if name == "max" else "<", b.term, a.term)
        k = I.known(c)
        if k is True:
            return b
        if k is False:
            return a
        kind = a.kind if "bifc".index(a.kind) >= "bifc".index(b.kind) else b.kind
        pt = a.pt if a.pt == b.pt else ("float" if {a.pt, b.pt} == {"int", "float"} else "nd")
        return AV((), kind, u, t, pt=pt)
    I.type_error(f"'{name}' of unorderable values", a, b)


def py_sum(I, args, kwargs):
    v = I.res(args[0])
    start = args[1] if len(args) > 1 else kwargs.get("start", num(0))
    items = to_items(I, v)
    if items is None:
        s = sym_iter(I, v)
        if s is None:
            raise NotImpl("sum() of unknown sequence")
        n, at = s
        tag = f"S{next(_seqtag)}"
        e = I.freeze(at(I, None, tag))
        if not isinstance(e, AV):
            raise NotImpl("sum() of non numeric elements")
        t = P.remap_axes(P.reduce_axis("sum", P.remap_axes(e.term, {tag: -99}), -99, n), {})
        r = e.but(term=t)
        return I.binop("Add", start, I.thaw(r) if r.shape else r)
    r = start
    for x in items:
        r = I.binop("Add", r, x)
    return r


def next_(I, it, default=_MISSING):
    it = I.res(it)
    if isinstance(it, IterRef):
        c = I.cell(it)
        if c.pos < len(c.items):
            I.set_cell(it, IterCell(c.items, c.pos + 1))
            return c.items[c.pos]
        if default is not _MISSING:
            return default
        I.throw("StopIteration")
    raise NotImpl("next() of unknown iterator")


def make_builtins(I):
    B = {}

    def reg(name, fn, lazy=False):
        b = Builtin(name, fn)
        b.lazy = lazy
        B[name] = b

    obj = ClassV("object", (), None, None, builtin="object")
    B["object"] = obj
    for n in ("int", "float", "complex", "bool", "str", "tuple", "list", "set", "frozenset", "dict", "range", "slice", "property", "type", "super",
              "staticmethod", "classmethod", "NoneType", "bytes"):
        base = (obj,)
        B[n] = ClassV(n, base, None, None, builtin=n)
    B["True"] = boolv(True)
    B["False"] = boolv(False)
    B["None"] = None
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = boolv(True)
    B["NotImplemented"] = ExtObj("NotImplemented", uid="NotImplemented")
    reg("len", lambda I, a, k: py_len(I, a[0]))
    reg("zip", lambda I, a, k: make_zip(I, a))
    reg("enumerate", lambda I, a, k: make_enumerate(I, a[0], I.res(a[1] if len(a) > 1 else k.get("start", num(0))).term))

    def map_(I, a, k):
        f = a[0]
        if len(a) == 2:
            x = as_sym(I, a[1])
            if x[0] == "c":
                return I_iter(I, [I.call(f, [e], {}) for e in x[1]])
            if x[0] == "s":
                return SymIter(x[1], lambda I, i, tag=None: I.call(f, [x[2](I, i, tag)], {}))
        z = make_zip(I, a[1:])
        items = to_items(I, z)
        if items is None:
            s = sym_iter(I, z)
            return SymIter(s[0], lambda I, i, tag=None: I.call(f, list(s[1](I, i, tag)), {}))
        return I_iter(I, [I.call(f, list(t), {}) for t in items])

    reg("map", map_, lazy=True)

    def filter_(I, a, k):
        items = to_items(I, a[1])
        if items is None:
            raise NotImpl("filter of unknown sequence")
        out = []
        for x in items:
            c = I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)
            kk = I.known(c)
            if kk is None:
                raise NotImpl("filter on an unknown condition")
            if kk:
                out.append(x)
        return I_iter(I, out)

    reg("filter", filter_)
    reg("sorted", lambda I, a, k: I.new_list(sorted_items(I, need_items(I, a[0]), k)))

    def reversed_(I, a, k):
        it = to_items(I, a[0])
        if it is None:
            v = I.res(a[0])
            if isinstance(v, RangeV) and v.c.const() == 1:
                return RangeV(v.b - 1, v.a - 1, -P1)
            raise NotImpl("reversed of unknown")
        return I_iter(I, it[::-1])

    reg("reversed", reversed_)
    reg("min", lambda I, a, k: minmax(I, "min", a, k))
    reg("max", lambda I, a, k: minmax(I, "max", a, k))
    reg("sum", py_sum)

    def abs_(I, a, k):
        v = a[0]
        if isinstance(v, Obj):
            m = I.class_lookup(I.cell(v).cls, "__abs__")
            if m:
                return I.call(I.bind(m, v), [], {})
        return I.np.ufunc1(I, "abs", v)

    reg("abs", abs_)

    def round_(I, a, k):
        v = a[0]
        if isinstance(v, Arr):
            return I.np.ufunc1(I, "rint", v)
        if isinstance(v, Top):
            return Top("round")
        if len(a) > 1 and not (a[1] is None):
            nd = const_int(I, a[1])
            if nd != 0:
                return AV((), "f", v.unit, as_poly(mk_atom("efn", ("roundto", v.term, as_poly(nd or 0)))), pt=v.pt)
        I.np.need_dimless(I, v, "round()")
        return AV((), "i", F(0), P.FN["rint"](v.term), pt="int")

    reg("round", round_)
    reg("isinstance", lambda I, a, k: cind(is_instance(I, a[0], a[1])))

    def issub(I, a, k):
        c, t = a
        if isinstance(t, tuple):
            return cind(or_all(I, [issub_(I, c, x) for x in t]))
        return cind(issub_(I, c, t))

    def issub_(I, c, t):
        if isinstance(c, ClassV) and isinstance(t, ClassV):
            return t in c.mro
        if isinstance(c, Ext) and isinstance(t, Ext):
            return c.path == t.path
        return False

    reg("issubclass", issub)
    reg("callable", lambda I, a, k: boolv(isinstance(a[0], (Func, Bound, Builtin, ClassV, Ext, ExtMeth, PartialV, LruFunc)) or (isinstance(a[0], Obj) and I.class_lookup(I.cell(a[0]).cls, "__call__") is not None)))

    def hasattr_(I, a, k):
        c = has_attr(I, a[0], a[1])
        return cind(c)

    reg("hasattr", hasattr_)

    def getattr_(I, a, k):
        o, name = a[0], a[1]
        if not isinstance(name, str):
            if isinstance(name, (StrV, Top)):
                return Top("getattr")
            I.throw("TypeError", "attribute name must be string")
        if len(a) > 2:
            return attr_or(I, o, name, lambda: a[2])
        return I.getattr(o, name)

    reg("getattr", getattr_)

    def setattr_(I, a, k):
        if not isinstance(a[1], str):
            raise NotImpl("setattr with unknown name")
        I.setattr(a[0], a[1], a[2])

    b = Builtin("setattr", setattr_)
    b.lazy = True
    B["setattr"] = b
    reg("delattr", lambda I, a, k: I.delattr(a[0], a[1]))

    def vars_(I, a, k):
        if not a:
            raise NotImpl("vars()")
        if isinstance(a[0], Obj):
            return InstDict(a[0])
        return I.getattr(a[0], "__dict__")

    reg("vars", vars_)
    reg("any", lambda I, a, k: anyall(I, a[0], True))
    reg("all", lambda I, a, k: anyall(I, a[0], False))
    def print_(I, a, k):
        I.event("ext", "print", data=("print", a, k))
        for x in a:
            format_value(I, x, None, None)
    reg("print", print_)
    reg("repr", lambda I, a, k: to_str(I, a[0], "r"))
    reg("format", lambda I, a, k: mkstr([format_value(I, a[0], None, a[1] if len(a) > 1 else None)]))
    reg("iter", lambda I, a, k: iter_(I, a[0]))
    reg("next", lambda I, a, k: next_(I, a[0], a[1] if len(a) > 1 else _MISSING))
    reg("divmod", lambda I, a, k: (I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1])))
    reg("pow", lambda I, a, k: I.binop("Pow", a[0], a[1]))
    reg("id", lambda I, a, k: intv(as_poly(mk_atom("sym", (f"?id({a[0]!r})",), integer=True, nonneg=True))))
    reg("hash", lambda I, a, k: intv(as_poly(mk_atom("sym", (f"?hash({a[0]!r:.50})",), integer=True))))
    reg("chr", lambda I, a, k: lift_py(I, chr(unlift(I, a[0]))))
    reg("ord", lambda I, a, k: lift_py(I, ord(a[0])))
    def dirf(I, a, k):
        raise NotImpl("dir()")
    reg("dir", dirf)
    def glob(I, a, k):
        raise NotImpl("globals()/locals()")
    reg("globals", glob)
    reg("locals", glob)
    def open_(I, a, k):
        I.event("io", "open()", data=a)
        return ExtObj("file")
    reg("open", open_)
    def imp(I, a, k):
        return I.import_module(a[0])
    reg("__import__", imp)
    def inp(I, a, k):
        I.event("io", "input()")
        return Top("input")
    reg("input", inp)
    def ev(I, a, k):
        raise NotImpl("eval/exec")
    reg("eval", ev)
    reg("exec", ev)
    return B


def need_items(I, v):
    it = to_items(I, v)
    if it is None:
        raise NotImpl("unknown sequence")
    return it


def iter_(I, v):
    v = I.res(v)
    if isinstance(v, IterRef):
        return v
    it = to_items(I, v)
    if it is not None:
        return I_iter(I, it)
    s = sym_iter(I, v)
    if s is not None:
        return SymIter(*s)
    I.type_error("object is not iterable", v)


def anyall(I, v, is_any):
    v = I.res(v)
    items = to_items(I, v)
    if items is None:
        s = sym_iter(I, v)
        if s is None:
            if isinstance(v, (Top, ExtObj)):
                return indv(fresh_ind("any"))
            raise NotImpl("any/all")
        n, at = s
        tag = f"A{next(_seqtag)}"
        e = at(I, None, tag)
        c = I.truth(e)
        if tag not in P.axes_of(c):
            return indv(c)
        return indv(as_poly(mk_atom("ind", ("anyall", as_poly(int(is_any)), P.remap_axes(c, {tag: 1})), nonneg=True, integer=True)))
    r = ZERO if is_any else P1
    for x in items:
        c = I.truth(x)
        k = I.known(c)
        if k is not None and k == is_any:
            return boolv(is_any)
        if k is not None:
            continue
        r = P.ind_or(r, c) if is_any else r * c
    return indv(r)


def attr_or(I, o, name, default):
    """getattr(o, name, default)"""
    o = I.res(o)
    sink = []
    I.sinks.append(sink)
    depth = len(I.frames)
    outs = []
    try:
        try:
            v = I.getattr(o, name)
            outs.append((v, I.st))
        except Dead:
            pass
    finally:
        I.sinks.pop()
        del I.frames[depth:]
    ae = I.exc_class("AttributeError")
    for e, st in sink:
        if ae in e.cls.mro:
            I.st = st
            outs.append((default(), I.st))
        else:
            I.sinks[-1].append((e, st))
    if not outs:
        raise Dead()
    v, I.st = I.join_outcomes(outs)
    return v


def has_attr(I, o, name):
    o = I.res(o)
    if isinstance(o, AV) and o.shape == ():
        if name in ("__iter__", "__len__", "__getitem__"):
            return False
        if o.pt == "nd":
            return name in I.np.ND_ATTRS
        return hasattr({"int": 0, "float": 0.0, "bool": True, "complex": 0j}[o.pt], name)
    if isinstance(o, Arr):
        return name in I.np.ND_ATTRS or name in ("__iter__", "__len__", "__getitem__")
    pyt = {tuple: tuple, str: str, StrV: str, ListRef: list, DictRef: dict, SetRef: set, type(None): type(None), RangeV: range, SymSeq: tuple}.get(type(o))
    if pyt is not None:
        return hasattr(pyt, name)
    if isinstance(o, Obj) and name.startswith("__") and I.class_lookup(I.cell(o).cls, name) is not None:
        return True
    if isinstance(o, (Top, ExtObj)):
        return fresh_ind("hasattr")
    if isinstance(o, Ext):
        return True
    if isinstance(o, (Func, Bound, Builtin)):
        return name in ("__call__", "__name__", "__doc__")
    # run the getter for effects/AttributeError
    r = attr_or(I, o, name, lambda: _ABSENT)
    if isinstance(r, Cond):
        c = ZERO
        if isinstance(r.a, _Absent) and not isinstance(r.b, _Absent):
            return simp(P1 - r.c)
        if isinstance(r.b, _Absent) and not isinstance(r.a, _Absent):
            return simp(r.c)
        return not isinstance(r.a, _Absent)
    return not isinstance(r, _Absent)


class _Absent:
    def __eq__(self, o):
        return isinstance(o, _Absent)

    def __hash__(self):
        return 3


_ABSENT = _Absent()


# ------------------------------------------------------------------ copy / functools / misc stdlib
def copy_copy(I, v):
    v = I.res(v)
    if isinstance(v, Cond):
        return I.cond_fork(v.c, lambda: copy_copy(I, v.a), lambda: copy_copy(I, v.b))
    if isinstance(v, Obj):
        m = I.class_lookup(I.cell(v).cls, "__copy__")
        if m is not None:
            return I.call(I.bind(m, v), [], {})
        c = I.cell(v)
        return Obj(I.alloc(ObjCell(c.cls, dict(c.fields))))
    if isinstance(v, Arr):
        return I.new_arr(I.arr(v))
    if isinstance(v, ListRef):
        return ListRef(I.alloc(ListCell(I.cell(v).items)))
    if isinstance(v, DictRef):
        return I.new_dict(I.cell(v).d)
    if isinstance(v, SetRef):
        return SetRef(I.alloc(SetCell(I.cell(v).items)))
    return v


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    v = I.res(v)
    if isinstance(v, Cond):
        return Cond(v.c, deepcopy(I, v.a, memo), deepcopy(I, v.b, memo))
    if isinstance(v, MaybeV):
        return MaybeV(deepcopy(I, v.v, memo), v.c)
    if isinstance(v, Ref):
        if v in memo:
            return memo[v]
        c = I.cell(v)
        if isinstance(v, Obj):
            m = I.class_lookup(c.cls, "__deepcopy__")
            if m is not None:
                r = I.call(I.bind(m, v), [I.new_dict({})], {})
                memo[v] = r
                return r
            m = I.class_lookup(c.cls, "__copy__") if False else None
            r = Obj(I.alloc(ObjCell(c.cls, {})))
            memo[v] = r
            d = {k: deepcopy(I, x, memo) for k, x in c.fields.items()}
            I.set_cell(r, ObjCell(c.cls, d))
            return r
        if isinstance(v, Arr):
            r = I.new_arr(I.arr(v))
            memo[v] = r
            return r
        if isinstance(v, ListRef):
            r = ListRef(I.alloc(ListCell(())))
            memo[v] = r
            if isinstance(c.items, tuple):
                I.set_cell(r, ListCell(tuple(deepcopy(I, x, memo) for x in c.items)))
            else:
                I.set_cell(r, ListCell(c.items))
            return r
        if isinstance(v, DictRef):
            r = I.new_dict({})
            memo[v] = r
            I.set_cell(r, DictCell({k: deepcopy(I, x, memo) for k, x in c.d.items()}))
            return r
        if isinstance(v, SetRef):
            r = SetRef(I.alloc(SetCell(c.items)))
            memo[v] = r
            return r
        return v
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    return v
