"""Abstract ndarray semantics: broadcasting, indexing, views, elementwise operations."""
from . import poly as P
from .poly import P1, ZERO, F, as_poly, mk_atom, Poly
from .state import *
from .values import *
from .interp import boolv, num, intv, indv, has_nan, join_lay, Dead, IterRef

RANK = "bifc"


def kmax(*ks):
    return max(ks, key=RANK.index)


def ret(I, av):
    """Result of a numpy function: scalars are values, arrays get a heap cell."""
    if av.shape == ():
        return av.but(pt="nd") if av.pt != "nd" else av
    return I.new_arr(av)


def mk(shape, kind, unit, term, lay=None, **kw):
    return AV(tuple(shape), kind, unit, term, lay=lay, **kw)


def val(I, v, what="operand"):
    """Abstract numeric value of any array-like."""
    v = I.res(v)
    if isinstance(v, AV):
        return v
    if isinstance(v, Arr):
        return I.arr(v)
    return asarray_av(I, v)


def is_py(v):
    return isinstance(v, AV) and v.pt != "nd"


# ------------------------------------------------------------------ units
def unit_mul(u, v, s=1):
    if u is None or v is None:
        return None
    if u is ANY or v is ANY:
        return ANY if s == 1 else (v if False else (ANY if u is ANY else u if v is ANY else None))
    return u + s * v


def unit_pow(u, e):
    if u is None or u is ANY:
        return u
    return u * e


def need_dimless(I, v, what):
    if v.unit in (None, ANY) or v.unit == 0:
        return
    I.event("unit", f"{what} applied to a quantity with length dimension L^{v.unit}")


# ------------------------------------------------------------------ shapes
def peq(I, a, b):
    """a == b for dimension polys: True/False/None"""
    if a == b:
        return True
    s = P.sign(a - b)
    if s is not None:
        return s == 0
    return I.known(P.mk_ind("eq", a - b))


def bdim(I, a, b, what):
    if a == b:
        return a
    if a == P1:
        return b
    if b == P1:
        return a
    k = peq(I, a, b)
    if k is True:
        return a
    if k is False:
        I.throw("ValueError", f"{what}: shapes do not match ({a!r} vs {b!r})")
    I.event("shape", f"{what}: lengths {a!r} and {b!r} are not known to agree")
    return a


def bshape(I, shapes, what="broadcast"):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for j in range(1, nd + 1):
        d = P1
        for s in shapes:
            if j <= len(s):
                d = bdim(I, d, s[-j], what)
        out.append(d)
    return tuple(reversed(out))


def count_of(mask, shape):
    at = mk_atom("count", (mask_bound(mask, shape),), integer=True, nonneg=True)
    return as_poly(at)


def mask_bound(t, shape):
    nd = len(shape)
    return P.lam(t, {-j: j for j in range(1, nd + 1)}, {-j: shape[-j] for j in range(1, nd + 1)})


def vshape(I, a):
    """Shape as seen by the program (boolean-gathered axes are flattened)."""
    if a.restr is None:
        return a.shape
    mask, r, off = a.restr
    nd = len(a.shape)
    pre = a.shape[: nd - off - r]
    blk = a.shape[nd - off - r: nd - off]
    post = a.shape[nd - off:]
    return tuple(pre) + (count_of(mask, blk),) + tuple(post)


# ------------------------------------------------------------------ term surgery
def shift_left(t, k, by=1):
    """Axis k was removed: axes further left move right."""
    ks = [a for a in P.axes_of(t) if isinstance(a, int) and a < k]
    return P.remap_axes(t, {a: a + by for a in ks}) if ks else t


def insert_axis(t, k):
    """A new axis is inserted so that it sits at position k (from end) in the result."""
    ks = [a for a in P.axes_of(t) if isinstance(a, int) and a <= k]
    return P.remap_axes(t, {a: a - 1 for a in ks}) if ks else t


def passthru(a, k):
    """Structural atoms acting on axes other than k."""
    if a.tag in ("at", "sl", "place", "split", "flipax", "roll", "stack"):
        return a.args[0].k != k
    if a.tag == "bins":
        return a.args[0].k != k and a.args[1].k != k
    return False


def map_axis(t, k, fn_atom, memo=None):
    """Rebuild t applying fn_atom to atoms that vary along axis k, distributing over elementwise functions."""
    if memo is None:
        memo = {}

    def fp(q):
        if k not in P.axes_of(q):
            return q
        r = memo.get(q.id)
        if r is None:
            r = P.map_atoms(q, fa)
            memo[q.id] = r
        return r

    def fa(a):
        if k not in P.atom_axes(a):
            return as_poly(a)
        r = fn_atom(a, fp)
        if r is not None:
            return r
        if a.tag in P.ELEMENTWISE:
            return P.remake(a, P.rebuild_args(a.args, fp))
        if a.tag == "fft" and a.args[1].k != k:
            inv, ax, arg, r = a.args
            return P.fft1(inv, ax, fp(arg), r)
        if a.tag == "red":
            return P.remake(a, P.rebuild_args(a.args, fp))
        if a.tag != "stack" and passthru(a, k):
            return P.remake(a, P.rebuild_args(a.args, fp))
        if a.tag == "stack" and a.args[0].k != k:
            return as_poly(mk_atom("stack", (a.args[0],) + tuple(fp(x) for x in a.args[1:]), real=a.real, nonneg=a.nonneg))
        return None or opaque_axis(a)

    def opaque_axis(a):
        raise _NoDist(a)

    return fp(t)


class _NoDist(Exception):
    def __init__(self, a):
        self.a = a


def at_term(t, k, i, n):
    """Value at index i along axis k (axes are not renumbered)."""
    if k not in P.axes_of(t):
        return t

    def fn(a, fp):
        tag = a.tag
        if tag == "ix" and a.args[1].k == k:
            if a.args[2].is_zero():
                return i
            return P.mod(i - a.args[2], n)
        if tag == "fftfreq" and a.args[1].k == k:
            j = P.reduce_mod(i - a.args[2], n)
            if j.const() is not None and 0 <= j.const() <= 1:
                return j
            return as_poly(mk_atom("efn", ("freqat", a.args[0], j), integer=True))
        if tag == "stack" and a.args[0].k == k:
            c = i.const()
            if c is not None:
                return a.args[1 + int(c)]
            return P.FN["take"](tuple(a.args[1:]), i) if not any(P.axes_of(x) for x in a.args[1:]) else case_index(a.args[1:], i)
        if tag == "sl" and a.args[0].k == k:
            return at_term(unb(a.args[3], k), k, i + a.args[1], a.args[2])
        if tag == "place" and a.args[0].k == k:
            _, before, n_old, n_new, arg = a.args
            ins = P.mk_ind("ge", i - before) * P.mk_ind("gt", before + n_old - i)
            if ins.is_zero():
                return ZERO
            return ins * at_term(unb(arg, k), k, i - before, n_old)
        if tag == "opq" and a.args[0] == "stride" and a.args[1][0].k == k and len(a.args) == 6:
            return at_term(unb(a.args[4], k), k, as_poly(a.args[2]) + i * a.args[3], a.args[5])
        if tag in P.ELEMENTWISE or (tag == "fft" and a.args[1].k != k) or tag == "red":
            return None
        if passthru(a, k):
            return None
        idx = i
        base = as_poly(a)
        if tag == "in":
            name, axs = a.args
            r = [rr for x, rr in axs if x.k == k][0]
            idx = P.reduce_mod(i - r, n)
            base = P.remake(a, (name, tuple((x, ZERO if x.k == k else rr) for x, rr in axs)))
        b = P._max_bound(base) + 1
        arg = P.remap_axes(base, {k: b})
        return as_poly(mk_atom("at", (P.Ax(b), idx, arg), real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))

    return map_axis(t, k, fn)


def unb(arg, k):
    return arg


def case_index(items, i):
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        c = P.mk_ind("eq", i - j)
        r = c * items[j] + (P1 - c) * r
    return r


def sl_term(t, k, start, n_old, n_new):
    if k not in P.axes_of(t):
        return t
    if start.is_zero() and n_old == n_new:
        return t

    def fn(a, fp):
        tag = a.tag
        if tag == "ix" and a.args[1].k == k and a.args[2].is_zero():
            return P.mk_ix(n_new, a.args[1]) + start
        if tag == "sl" and a.args[0].k == k:
            return as_poly(mk_atom("sl", (a.args[0], a.args[1] + start, a.args[2], a.args[3], n_new), real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
        if tag == "place" and a.args[0].k == k and a.args[1] == start and a.args[2] == n_new:
            return a.args[4]
        if tag == "stack" and a.args[0].k == k:
            c, m = start.const(), n_new.const()
            if c is not None and m is not None:
                its = a.args[1 + int(c): 1 + int(c) + int(m)]
                if len(its) == 1:
                    return its[0]
                return as_poly(mk_atom("stack", (a.args[0],) + tuple(its), real=a.real, nonneg=a.nonneg)) if its else ZERO
        if tag in P.ELEMENTWISE or (tag == "fft" and a.args[1].k != k) or tag == "red":
            return None
        if passthru(a, k):
            return None
        return as_poly(mk_atom("sl", (P.Ax(k), start, n_old, as_poly(a), n_new), real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))

    return map_axis(t, k, fn)


def place_term(t, k, before, n_old, n_new):
    """Zero-padded copy of t along axis k (value outside is 0)."""
    if before.is_zero() and n_old == n_new:
        return t
    out = ZERO
    for m, c in t.m:
        outer = P.mk_poly({tuple((a, e) for a, e in m if k not in P.atom_axes(a)): c})
        inner = P.mk_poly({tuple((a, e) for a, e in m if k in P.atom_axes(a)): F(1)})
        s = inner.single()
        if s is not None and len(s[0]) == 1 and s[0][0][1] == 1 and s[0][0][0].tag == "place" and s[0][0][0].args[0].k == k:
            a = s[0][0][0]
            at = mk_atom("place", (P.Ax(k), a.args[1] + before, a.args[2], n_new, a.args[4]), real=a.real, nonneg=a.nonneg)
        else:
            at = mk_atom("place", (P.Ax(k), before, n_old, n_new, inner), real=P.is_real(inner), nonneg=P.is_nonneg(inner))
        out = out + outer * as_poly(at)
    return out


def generic_axis(t, k, key):
    """Rename axis k to loop axis key and close the gap."""
    return shift_left(P.remap_axes(t, {k: key}), k)


# ------------------------------------------------------------------ rows
def to_elems(I, av):
    if av.elems is not None:
        return list(av.elems)
    if not av.shape:
        return None
    n = av.shape[0].const()
    if n is None or n > 512 or (av.restr is not None and len(av.shape) == av.restr[1] + av.restr[2]):
        return None
    return [index_axis(I, av, 0, as_poly(j)) for j in range(int(n))]


def index_axis(I, av, ax, i):
    """Fixed index along axis ax (counted from the front)."""
    nd = len(av.shape)
    n = av.shape[ax]
    if P.sign(i) == -1:
        i = i + n
    if av.elems is not None:
        if ax == 0:
            c = i.const()
            if c is not None:
                if not 0 <= c < len(av.elems):
                    I.throw("IndexError", "index out of range")
                return av.elems[int(c)]
            e0 = av.elems[0]
            t = case_index([e.term for e in av.elems], i)
            if all(e.term.const() is not None for e in av.elems):
                t = P.FN["take"](tuple(e.term for e in av.elems), i)
            return e0.but(term=t, kind=kmax(*[e.kind for e in av.elems]))
        return restack(I, [index_axis(I, e, ax - 1, i) for e in av.elems], av)
    nc, ic = n.const(), i.const()
    if nc is not None and ic is not None and not 0 <= ic < nc:
        I.throw("IndexError", "index out of range")
    if P.sign(i - n) in (0, 1):
        I.throw("IndexError", "index out of range")
    k = ax - nd
    t = shift_left(at_term(av.term, k, i, n), k)
    return AV(av.shape[:ax] + av.shape[ax + 1:], av.kind, av.unit, t, lay=av.lay[:ax] + av.lay[ax + 1:], restr=av.restr)


def restack(I, elems, like=None, kind=None):
    """Stack AVs along a new leading axis."""
    e0 = elems[0]
    kind = kind or kmax(*[e.kind for e in elems])
    unit = e0.unit
    lay = list(e0.lay)
    for e in elems[1:]:
        unit = I.join_unit(unit, e.unit, "elements of one array")
        lay = [join_lay(x, y) for x, y in zip(lay, e.lay)]
    return AV((as_poly(len(elems)),) + e0.shape, kind, unit, None, lay=(UNK,) + tuple(lay), elems=tuple(e.but(pt="nd") for e in elems), restr=e0.restr)


def take0(I, a):
    return index_axis(I, a, 0, ZERO)


def row(I, v, i):
    """v[i] along the first axis, as a view."""
    return getitem(I, v, intv(i))


def generic_row(I, av, tag):
    nd = len(av.shape)
    if av.restr is not None and nd == av.restr[1] + av.restr[2]:
        raise NotImpl("iterating a boolean selection")
    t = generic_axis(av.term, -nd, tag)
    return AV(av.shape[1:], av.kind, av.unit, t, lay=av.lay[1:], restr=av.restr)


def subst_axis(I, av, tag, i):
    """Value of a generic element (loop axis tag) at index i."""
    t = at_term(av.term, tag, i, ZERO) if tag in P.axes_of(av.term) else av.term
    el = None if av.elems is None else tuple(subst_axis(I, e, tag, i) for e in av.elems)
    return av.but(term=t, elems=el)


# ------------------------------------------------------------------ layouts
def affine_lay(t, k, dom="g"):
    """If t = a*ix_k + b with a, b constant over all axes -> AxInfo with the zero crossing."""
    a = b = ZERO
    for m, c in t.m:
        hit = [(x, e) for x, e in m if P.atom_axes(x)]
        if not hit:
            b = b + P.mk_poly({m: c})
            continue
        if len(hit) != 1:
            return None
        x, e = hit[0]
        if x.tag != "ix" or e != 1 or x.args[1].k != k or not x.args[2].is_zero():
            return None
        a = a + P.mk_poly({tuple(y for y in m if y[0] is not x): c})
    if a.is_zero():
        return None
    return AxInfo(dom, -b / a)


def merge_lay(I, infos, what):
    cur = CST
    for x in infos:
        if x is CST or x == CST:
            continue
        if cur is CST or cur == CST:
            cur = x
            continue
        if x is UNK or cur is UNK:
            cur = UNK
            continue
        if cur.org != x.org and not P.equal(cur.org, x.org):
            if cur.dom == "g" and x.dom == "g":
                cur = UNK
                continue
            I.event("layout", f"{what}: operands have their origin at different positions ({cur!r} vs {x!r})")
            cur = UNK
            continue
        if cur.dom != x.dom and "g" not in (cur.dom, x.dom):
            I.event("layout", f"{what}: operands live in different domains ({cur!r} vs {x!r})")
            cur = UNK
            continue
        dom = cur.dom if x.dom == "g" else x.dom
        tw = None if cur.tw is None or x.tw is None else cur.tw + x.tw
        cur = AxInfo(dom, cur.org, tw)
    return cur


def comb_lay(I, avs, shape, what):
    nd = len(shape)
    out = []
    for j in range(nd, 0, -1):
        infos = []
        for a in avs:
            if len(a.shape) >= j and not (a.shape[-j] == P1 and shape[-j] != P1):
                infos.append(a.lay[-j])
            else:
                infos.append(CST)
        out.append(merge_lay(I, infos, what))
    return tuple(out)


def relay(av):
    """Recompute coordinate origins of affine coordinate arrays."""
    lay = list(av.lay)
    ch = False
    nd = len(av.shape)
    for j in range(nd):
        x = lay[j]
        if isinstance(x, AxInfo) and x.dom == "g" and x.tw == ZERO:
            r = affine_lay(av.term, j - nd)
            if r is not None and r != x:
                lay[j] = r
                ch = True
    return av.but(lay=tuple(lay)) if ch else av


# ------------------------------------------------------------------ elementwise
def elementwise(I, f, avs, kind, unit, what, tw="keep"):
    """Apply term function f to broadcast operands."""
    restr = None
    for a in avs:
        if a.restr is not None:
            if restr is not None and a.restr != restr:
                I.event("shape", f"{what}: operands are selected with different masks")
            restr = a.restr
    if restr is not None:
        r, off = restr[1], restr[2]
        for a in avs:
            if a.restr is None and any(s != P1 for s in a.shape[-(r + off):]):
                I.event("shape", f"{what}: a boolean selection is combined with a full array")
    shape = bshape(I, [a.shape for a in avs], what)
    nd = len(shape)
    el = [a for a in avs if a.elems is not None and len(a.shape) == nd]
    if el:
        K = len(el[0].elems)
        if el[0].shape[0] == P1 and shape[0] != P1:
            el = []
        for a in el:
            if len(a.elems) != K:
                el = []
                break
    if el:
        cols = []
        for a in avs:
            if len(a.shape) < nd:
                cols.append([a] * K)
            elif a.elems is not None and len(a.elems) == K:
                cols.append(list(a.elems))
            elif a.shape[0] == P1:
                cols.append([take0(I, a)] * K)
            else:
                e = to_elems(I, a)
                if e is None or len(e) != K:
                    raise NotImpl("mixing stacked and symbolic leading axes")
                cols.append(e)
        rows = [elementwise(I, f, list(c), kind, unit, what, tw) for c in zip(*cols)]
        return AV(shape, kind, unit, None, lay=(UNK,) + rows[0].lay if all(r.lay == rows[0].lay for r in rows) else
                  (UNK,) + tuple(join_all([r.lay[j] for r in rows]) for j in range(nd - 1)), elems=tuple(rows), restr=restr)
    t = f(*[a.term for a in avs])
    lay = comb_lay(I, avs, shape, what)
    if tw == "zero":
        lay = tuple(AxInfo(x.dom, x.org) if isinstance(x, AxInfo) else x for x in lay)
    return AV(shape, kind, unit, t, lay=lay, restr=restr)


def join_all(ls):
    r = ls[0]
    for x in ls[1:]:
        r = join_lay(r, x)
    return r


def py_pt(avs, kind):
    if all(a.pt != "nd" for a in avs):
        return {"b": "bool", "i": "int", "f": "float", "c": "complex"}[kind]
    return "nd"


def fin(I, r, avs, refs=None):
    if r.shape == ():
        return r.but(pt=py_pt(avs, r.kind))
    return I.new_arr(r)


def bad_operand(I, v, op):
    if v is None or isinstance(v, (str, StrV, DictRef, Func, ClassV)):
        I.throw("TypeError", f"unsupported operand type for {op}: {type(v).__name__}")


def binop(I, op, a, b):
    if isinstance(a, Top) or isinstance(b, Top):
        return Top("binop")
    x, y = val(I, a), val(I, b)
    if x.shape is None or y.shape is None:
        return Top("binop")
    r = binop_av(I, op, x, y)
    return fin(I, r, [x, y])


def binop_av(I, op, x, y):
    k = kmax(x.kind, y.kind)
    if op in ("Add", "Sub"):
        if op == "Sub" and x.kind == "b" and y.kind == "b" and (x.pt == "nd" or y.pt == "nd"):
            I.throw("TypeError", "numpy boolean subtract is not supported")
        u = I.join_unit(x.unit, y.unit, "operands of " + ("+" if op == "Add" else "-"))
        if k == "b":
            k = "b" if x.pt == "nd" or y.pt == "nd" else "i"
        f = (lambda s, t: s + t) if op == "Add" else (lambda s, t: s - t)
        if k == "b":
            f = P.ind_or
        r = elementwise(I, f, [x, y], k, u, op)
        return addlay(I, x, y, r)
    if op == "Mult":
        if k == "b" and x.pt != "nd" and y.pt != "nd":
            k = "i"
        return elementwise(I, lambda s, t: s * t, [x, y], k, unit_mul(x.unit, y.unit), "Mult")
    if op == "Div":
        k = kmax(k, "f")
        if y.term.is_zero() and x.pt != "nd" and y.pt != "nd":
            I.throw("ZeroDivisionError", "division by zero")
        yy = y.but(lay=neg_tw(y.lay), elems=y.elems) if y.elems is None else y
        r = elementwise(I, lambda s, t: s / t, [x, yy], k, unit_mul(x.unit, y.unit, -1) if y.unit is not ANY else x.unit, "Div")
        return r
    if op in ("FloorDiv", "Mod"):
        if op == "FloorDiv":
            u = unit_mul(x.unit, y.unit, -1) if y.unit is not ANY and x.unit is not ANY else (x.unit if y.unit is ANY else F(0))
            u = F(0) if u is None else u
        else:
            u = I.join_unit(x.unit, y.unit, "operands of %")
        if k == "b":
            k = "i"
        if y.term.is_zero() and x.pt != "nd" and y.pt != "nd":
            I.throw("ZeroDivisionError", "integer division or modulo by zero")
        if k == "i":
            f = P.floordiv if op == "FloorDiv" else P.mod
        elif op == "FloorDiv":
            f = lambda s, t: P.FN["floor"](s / t)
        else:
            f = lambda s, t: s - t * P.FN["floor"](s / t)
        return elementwise(I, f, [x, y], k, u, op)
    if op == "Pow":
        c = y.term.const()
        if y.unit not in (None, ANY) and y.unit != 0:
            I.event("unit", f"exponent has length dimension L^{y.unit}")
        if c is not None:
            u = unit_pow(x.unit, c)
        elif x.unit in (None, ANY) or x.unit == 0:
            u = x.unit if x.unit is not ANY else F(0)
        else:
            I.event("unit", f"quantity with dimension L^{x.unit} raised to a non-constant power")
            u = None
        if k == "b":
            k = "i"
        if k == "i" and c is not None and c < 0:
            k = "f"
        f = (lambda s, t: P.ppow(s, t.const())) if c is not None else P.fn_pow
        if y.elems is not None or x.elems is not None:
            f = lambda s, t: P.ppow(s, t.const()) if t.const() is not None else P.fn_pow(s, t)
        r = elementwise(I, f, [x, y], k, u, "Pow")
        if c is not None and c != 1:
            r = scale_tw(r, c)
        return r
    if op in ("BitAnd", "BitOr", "BitXor"):
        if k == "b":
            f = {"BitAnd": P.ind_and, "BitOr": P.ind_or, "BitXor": lambda s, t: s + t - 2 * s * t}[op]
            return elementwise(I, f, [x, y], "b", F(0), op)
        if k != "i":
            I.throw("TypeError", f"unsupported operand types for {op}")
        if op == "BitAnd" and y.term.const() == 1:
            return elementwise(I, lambda s, t: P.mod(s, as_poly(2)), [x, y], "i", F(0), op)
        return elementwise(I, lambda s, t: as_poly(mk_atom("efn", (op, s, t), integer=True)), [x, y], "i", F(0), op)
    if op in ("LShift", "RShift"):
        if k not in "bi":
            I.throw("TypeError", f"unsupported operand types for {op}")
        c = y.term.const()
        if c is not None and c >= 0:
            q = as_poly(2 ** int(c))
            f = (lambda s, t: s * q) if op == "LShift" else (lambda s, t: P.floordiv(s, q))
            return elementwise(I, f, [x, y], "i", F(0), op)
        return elementwise(I, lambda s, t: as_poly(mk_atom("efn", (op, s, t), integer=True)), [x, y], "i", F(0), op)
    if op == "MatMult":
        return matmul_av(I, x, y)
    raise NotImpl(op)


def matmul_av(I, x, y):
    from .npmodel import einsum_av

    a = "ab"[2 - len(x.shape):] if len(x.shape) <= 2 else None
    b = "bc"[: len(y.shape)] if len(y.shape) <= 2 else None
    if a is None or b is None or not a or not b:
        raise NotImpl("matmul of stacks")
    o = "".join(c for c in "ac" if c in a or c in b)
    return einsum_av(I, [a, b], o, [x, y])


def neg_tw(lay):
    return tuple(AxInfo(x.dom, x.org, -x.tw) if isinstance(x, AxInfo) and x.tw is not None and x.tw != ZERO else x for x in lay)


def scale_tw(r, c):
    if any(isinstance(x, AxInfo) and x.tw not in (None, ZERO) for x in r.lay):
        return AV(r.shape, r.kind, r.unit, r.term, lay=tuple(AxInfo(x.dom, x.org, x.tw * as_poly(c)) if isinstance(x, AxInfo) and x.tw is not None else x for x in r.lay), elems=r.elems, restr=r.restr)
    return r


def addlay(I, x, y, r):
    """+/-: both operands must carry the same ramp; sums do not add ramps."""
    lay = []
    ch = False
    for j in range(len(r.shape), 0, -1):
        i = r.lay[-j]
        if isinstance(i, AxInfo):
            ls = [a.lay[-j] for a in (x, y) if len(a.shape) >= j]
            ls = [l for l in ls if isinstance(l, AxInfo)]
            tws = {l.tw for l in ls}
            tw = tws.pop() if len(tws) == 1 else None
            if tw != i.tw:
                i = AxInfo(i.dom, i.org, tw)
                ch = True
        lay.append(i)
    if ch and r.elems is None:
        r = r.but(lay=tuple(lay))
    if r.elems is None:
        r = relay(r)
    return r


def unary(I, op, v):
    x = val(I, v)
    if op == "USub":
        if x.kind == "b" and x.pt == "nd":
            I.throw("TypeError", "numpy boolean negative is not supported")
        r = elementwise(I, lambda t: -t, [x], kmax(x.kind, "i"), x.unit, "negation")
    elif op == "UAdd":
        r = elementwise(I, lambda t: t, [x], kmax(x.kind, "i"), x.unit, "plus")
    else:
        if x.kind == "b" and x.pt == "nd":
            r = elementwise(I, P.ind_not, [x], "b", F(0), "invert")
        elif x.kind in "bi":
            r = elementwise(I, lambda t: -t - 1, [x], "i", F(0), "invert")
        else:
            I.throw("TypeError", "bad operand type for unary ~")
    return fin(I, r, [x])


CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def cmp_fn(op):
    s = CMP[op]

    def f(p, q):
        if has_nan(p) or has_nan(q):
            return P1 if op == "NotEq" else ZERO
        return inf_cmp(s, p, q)

    return f


def inf_cmp(s, p, q):
    def isinf(t):
        m = t.single()
        if m is not None and len(m[0]) == 1 and m[0][0][0].tag == "inf":
            return 1 if m[1] > 0 else -1
        return 0

    a, b = isinf(p), isinf(q)
    if a or b:
        if a and b and a == b:
            return P1 if s in ("==", "<=", ">=") else ZERO
        if not (has_inf(p) and not a) and not (has_inf(q) and not b):
            big = (a - b) > 0
            return {"<": ZERO if big else P1, "<=": ZERO if big else P1, ">": P1 if big else ZERO, ">=": P1 if big else ZERO, "==": ZERO, "!=": P1}[s]
    return P.cmp_ind(s, p, q)


def has_inf(p):
    return any(a.tag == "inf" for a in P.atoms_deep(p))


def cmp_terms(I, op, a, b):
    I.join_unit(a.unit, b.unit, "operands of a comparison")
    if not P.is_real(a.term) or not P.is_real(b.term):
        if op not in ("Eq", "NotEq"):
            if "c" in (a.kind, b.kind):
                I.throw("TypeError", "ordering of complex numbers")
    return cmp_fn(op)(a.term, b.term)


def compare(I, op, a, b):
    if isinstance(a, Top) or isinstance(b, Top):
        return indv(fresh_ind("cmp"))
    if b is None or isinstance(b, (str, StrV)) or a is None or isinstance(a, (str, StrV)):
        if op in ("Eq", "NotEq"):
            return boolv(op == "NotEq")
        I.throw("TypeError", "comparison of array with None/str")
    x, y = val(I, a), val(I, b)
    I.join_unit(x.unit, y.unit, "operands of a comparison")
    if x.pt != "nd" and y.pt != "nd" and "c" in (x.kind, y.kind) and op not in ("Eq", "NotEq"):
        I.throw("TypeError", "ordering of complex numbers")
    r = elementwise(I, cmp_fn(op), [x, y], "b", F(0), "comparison", tw="zero")
    return fin(I, r, [x, y])


# ------------------------------------------------------------------ conversion
def asarray_av(I, v, kind=None):
    """AV of an array-like (fresh value semantics)."""
    v = I.res(v)
    if isinstance(v, (AV, Arr)):
        a = I.arr(v)
        return a
    if v is None or isinstance(v, (str, StrV)):
        I.throw("TypeError", f"{'None' if v is None else 'a string'} used as a number")
    if isinstance(v, SymSeq):
        e = asarray_av(I, v.elem) if not isinstance(v.elem, SymSeq) else asarray_av(I, v.elem)
        nd = len(e.shape)
        t = P.remap_axes(e.term, {v.tag: -(nd + 1)})
        return AV((v.length,) + e.shape, e.kind, e.unit, t, lay=(UNK,) + e.lay, restr=e.restr)
    items = I.to_items(v)
    if items is None:
        s = I.sym_iter(v)
        if s is not None:
            from .pymodel import sym_materialise

            return asarray_av(I, sym_materialise(I, s))
        if isinstance(v, (Top, ExtObj, Cond)):
            raise NotImpl(f"array from {v!r:.60}")
        I.type_error("cannot convert to array", v)
    if not items:
        return AV((ZERO,), "f", F(0), as_poly(mk_atom("empty", ())), lay=(UNK,))
    els = []
    for x in items:
        x = I.res(x)
        if isinstance(x, Cond):
            raise NotImpl("array of conditional values")
        if isinstance(x, Top):
            raise NotImpl("array of unknown values")
        els.append(asarray_av(I, x).but(pt="nd"))
    sh = els[0].shape
    for e in els[1:]:
        if len(e.shape) != len(sh) or any(peq(I, a, b) is False for a, b in zip(e.shape, sh)):
            I.throw("ValueError", "setting an array element with a sequence (inhomogeneous shape)")
        for a, b in zip(e.shape, sh):
            if peq(I, a, b) is None:
                I.event("shape", f"rows of an array have lengths {a!r} and {b!r}")
        if e.restr != els[0].restr:
            I.event("shape", "rows of an array are selected with different masks")
    return restack(I, els)


def cast(I, a, kind):
    """astype: elementwise conversion."""
    if kind is None or kind == a.kind:
        return a
    if kind == "i" and a.kind == "f":
        need_dimless(I, a, "conversion to integer")
        return elementwise(I, P.FN["trunc"], [a], "i", F(0), "astype")
    if kind == "b":
        return elementwise(I, lambda t: P.ind_not(P.mk_ind("eq", t)) if P.sign(t) is None else as_poly(int(P.sign(t) != 0)), [a], "b", F(0), "astype")
    if a.kind == "c" and kind in "if":
        I.event("cast", "complex values are cast to real, discarding the imaginary part")
        return elementwise(I, P.FN["real"], [a], kind, a.unit, "astype")
    if a.elems is not None:
        return AV(a.shape, kind, a.unit, None, lay=a.lay, elems=tuple(cast(I, e, kind) for e in a.elems), restr=a.restr)
    return a.but(kind=kind, term=a.term)


def inplace_store(I, ref, old, new, what):
    if not isinstance(ref, Arr):
        raise NotImpl("in-place store")
    if len(new.shape) != len(old.shape):
        I.throw("ValueError", "non-broadcastable output operand in an in-place operation")
    for a, b in zip(new.shape, old.shape):
        k = peq(I, a, b)
        if k is False:
            I.throw("ValueError", "non-broadcastable output operand in an in-place operation")
        if k is None:
            I.event("shape", f"in-place operation on lengths {b!r} and {a!r}")
    if RANK.index(new.kind) > RANK.index(old.kind):
        I.throw("TypeError", f"cannot cast in-place result from {new.kind} to {old.kind}")
    new2 = cast(I, new, old.kind) if new.kind != old.kind else new
    I.write_arr(ref, AV(old.shape, old.kind, new2.unit, new2.term, lay=new2.lay, elems=new2.elems, restr=new2.restr), what)


def opaque_like(av, tag, *terms):
    axes = tuple(P.Ax(-j) for j in range(len(av.shape), 0, -1))
    t = as_poly(mk_atom("opq", (tag, axes) + tuple(mask_bound(x, av.shape) for x in terms), real=av.kind != "c"))
    return AV(av.shape, av.kind, av.unit, t, lay=tuple(UNK for _ in av.shape), restr=av.restr)


# ------------------------------------------------------------------ indexing
class IxS:
    """slice along one axis: [start, start+n), step"""

    def __init__(self, start, n, step, full):
        self.start, self.n, self.step, self.full = start, n, step, full


def expand_index(I, ix, nd_visible):
    if isinstance(ix, tuple):
        parts = list(ix)
    else:
        parts = [ix]
    parts = [I.res(p) for p in parts]
    cnt = 0
    for p in parts:
        if p is None or p is Ellipsis:
            continue
        if isinstance(p, Arr) and I.arr(p).kind == "b":
            cnt += len(I.arr(p).shape)
        elif not (isinstance(p, AV) and p.shape == () and p.kind == "b"):
            cnt += 1
    el = [i for i, p in enumerate(parts) if p is Ellipsis]
    if len(el) > 1:
        I.throw("IndexError", "an index can only have a single ellipsis")
    fill = [SliceV(None, None, None)] * max(0, nd_visible - cnt)
    if cnt > nd_visible:
        I.throw("IndexError", "too many indices for array")
    if el:
        return parts[: el[0]] + fill + parts[el[0] + 1:]
    return parts + fill


def scalar_int(I, p):
    p = I.res(p)
    if isinstance(p, Arr) and I.arr(p).shape == ():
        p = I.arr(p)
    if isinstance(p, AV) and p.shape == ():
        return p
    return None


def norm_bound(I, t, n, default):
    """slice bound -> poly in [0, n]"""
    if t is None:
        return default
    a = scalar_int(I, t)
    if a is None:
        raise NotImpl("slice bound")
    if a.kind not in "ib":
        I.throw("TypeError", "slice indices must be integers or None")
    p = a.term
    s = P.sign(p)
    neg = I.known(P.mk_ind("gt", -p)) if s is None else s < 0
    if neg is None:
        # clipped to valid range only where provable
        if P.is_nonneg(p):
            neg = False
    if neg:
        p = p + n
        q = P.sign(p)
        if q == -1:
            return ZERO
        return p
    d = n - p
    if P.sign(d) == -1:
        return n
    if P.nonneg_by_sign(d):
        return p
    k = I.known(P.mk_ind("ge", d))
    if k is False:
        return n
    if k is True:
        return p
    return P.FN["min"](p, n) if not bounded_below(I, p, n) else p


def bounded_below(I, p, n):
    return False


def norm_slice(I, s, n):
    step = 1
    if s.c is not None:
        c = scalar_int(I, s.c)
        c = None if c is None else c.term.const()
        if c is None:
            raise NotImpl("slice step")
        step = int(c)
    if step > 0:
        a = norm_bound(I, s.a, n, ZERO)
        b = norm_bound(I, s.b, n, n)
        ln = b - a
        if P.sign(ln) == -1 or I.known(P.mk_ind("ge", ln)) is False:
            ln = ZERO
        if step > 1:
            ln = P.floordiv(ln + (step - 1), as_poly(step))
        return IxS(a, ln, step, a.is_zero() and b == n and step == 1)
    if s.a is None and s.b is None and step == -1:
        return IxS(n - 1, n, -1, False)
    raise NotImpl("slice with negative step")


def flip_term(t, k, n):
    def fn(a, fp):
        if a.tag == "ix" and a.args[1].k == k and a.args[2].is_zero():
            return n - 1 - as_poly(a)
        if a.tag == "flipax" and a.args[0].k == k:
            return a.args[1]
        if a.tag == "stack" and a.args[0].k == k:
            return as_poly(mk_atom("stack", (a.args[0],) + tuple(reversed(a.args[1:])), real=a.real, nonneg=a.nonneg))
        if a.tag in P.ELEMENTWISE or (a.tag == "fft" and a.args[1].k != k) or a.tag == "red":
            return None
        if passthru(a, k):
            return None
        return as_poly(mk_atom("flipax", (P.Ax(k), as_poly(a)), real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))

    return map_axis(t, k, fn)


def step_term(t, k, start, step, n_old, n_new):
    def fn(a, fp):
        if a.tag == "ix" and a.args[1].k == k and a.args[2].is_zero():
            return P.mk_ix(n_new, a.args[1]) * step + start
        if a.tag in P.ELEMENTWISE or (a.tag == "fft" and a.args[1].k != k) or a.tag == "red":
            return None
        if passthru(a, k):
            return None
        return as_poly(mk_atom("opq", ("stride", (P.Ax(k),), start, as_poly(step), as_poly(a), as_poly(n_old)), real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))

    return map_axis(t, k, fn)


def sl_axis(I, av, ax, s):
    """Slice along axis ax (front-counted)."""
    if s.full:
        return av
    n = av.shape[ax]
    shape = av.shape[:ax] + (s.n,) + av.shape[ax + 1:]
    if av.elems is not None:
        if ax == 0:
            a, m = s.start.const(), s.n.const()
            if a is None or m is None:
                return sl_axis(I, AV(av.shape, av.kind, av.unit, av.term, lay=av.lay, restr=av.restr), ax, s)
            a, m = int(a), int(m)
            el = [av.elems[a + j * s.step] for j in range(m)]
            if not el:
                return AV(shape, av.kind, av.unit, as_poly(mk_atom("empty", ())), lay=av.lay)
            return AV(shape, av.kind, av.unit, None, lay=av.lay, elems=tuple(el), restr=av.restr)
        return AV(shape, av.kind, av.unit, None, lay=sl_lay(av.lay, ax, s, n), elems=tuple(sl_axis(I, e, ax - 1, s) for e in av.elems), restr=av.restr)
    k = ax - len(av.shape)
    if s.step == 1:
        t = sl_term(av.term, k, s.start, n, s.n)
    elif s.step == -1:
        t = flip_term(av.term, k, n)
    else:
        t = step_term(av.term, k, s.start, s.step, n, s.n)
    r = AV(shape, av.kind, av.unit, t, lay=sl_lay(av.lay, ax, s, n), restr=av.restr)
    return relay(r)


def sl_lay(lay, ax, s, n):
    x = lay[ax]
    if isinstance(x, AxInfo):
        if s.step == 1:
            x = AxInfo(x.dom, x.org - s.start, x.tw if x.tw == ZERO else None)
        elif s.step == -1:
            x = AxInfo(x.dom, n - 1 - x.org, None if x.tw is None else -x.tw)
        else:
            x = UNK
    return lay[:ax] + (x,) + lay[ax + 1:]


def new_axis(I, av, pos):
    """Insert a length-1 axis before front-position pos."""
    nd = len(av.shape)
    shape = av.shape[:pos] + (P1,) + av.shape[pos:]
    lay = av.lay[:pos] + (CST,) + av.lay[pos:]
    k = pos - (nd + 1)
    if av.elems is not None:
        if pos == 0:
            return AV(shape, av.kind, av.unit, None, lay=lay, elems=(av,), restr=av.restr)
        return AV(shape, av.kind, av.unit, None, lay=lay, elems=tuple(new_axis(I, e, pos - 1) for e in av.elems), restr=av.restr)
    return AV(shape, av.kind, av.unit, insert_axis(av.term, k), lay=lay, restr=av.restr)


def drop_axis(I, av, pos):
    """Remove a length-1 axis."""
    if av.elems is not None:
        if pos == 0:
            return av.elems[0]
        return AV(av.shape[:pos] + av.shape[pos + 1:], av.kind, av.unit, None, lay=av.lay[:pos] + av.lay[pos + 1:],
                  elems=tuple(drop_axis(I, e, pos - 1) for e in av.elems), restr=av.restr)
    return index_axis(I, av, pos, ZERO)


def read_index(I, av, ix):
    """av[ix] -> (AV, is_view)"""
    parts = expand_index(I, ix, len(vshape(I, av)))
    cur = av
    pos = 0
    view = True
    fancy = []
    for p in parts:
        if p is None:
            cur = new_axis(I, cur, pos)
            pos += 1
            continue
        if isinstance(p, SliceV):
            if cur.restr is not None and pos >= len(cur.shape) - cur.restr[1] - cur.restr[2]:
                if p.a is None and p.b is None and p.c is None:
                    pos += cur.restr[1]
                    continue
                raise NotImpl("slicing a boolean selection")
            cur = sl_axis(I, cur, pos, norm_slice(I, p, cur.shape[pos]))
            pos += 1
            continue
        sc = scalar_int(I, p)
        if sc is not None:
            if sc.kind == "b":
                if av.shape == () and len(parts) == 1 and cur.restr is None:
                    return with_restr(I, cur, (sc.term, 0, 0)), False
                raise NotImpl("boolean scalar index")
            if sc.kind != "i":
                I.throw("IndexError", "only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices")
            if cur.restr is not None and pos >= len(cur.shape) - cur.restr[1] - cur.restr[2]:
                t = as_poly(mk_atom("efn", ("maskat", sc.term, mask_bound(cur.term * cur.restr[0], cur.shape)), real=cur.kind != "c"))
                return AV((), cur.kind, cur.unit, t), False
            cur = index_axis(I, cur, pos, sc.term)
            continue
        if isinstance(p, (str, StrV)):
            I.throw("IndexError", "only integers, slices, ... are valid indices")
        ia = val(I, p)
        view = False
        if ia.kind == "b":
            r = len(ia.shape)
            blk = cur.shape[pos: pos + r]
            for a, b in zip(blk, ia.shape):
                bdim_strict(I, a, b, "boolean index")
            if pos + r != len(cur.shape):
                off = len(cur.shape) - pos - r
                raise NotImpl("boolean index before other axes")
            if cur.restr is not None:
                raise NotImpl("boolean index of a boolean selection")
            cur = with_restr(I, cur, (ia.term, r, 0))
            pos += r
            continue
        if ia.kind == "f":
            I.throw("IndexError", "arrays used as indices must be of integer (or boolean) type")
        fancy.append((pos, ia))
        pos += 1
    if fancy:
        cur = fancy_read(I, cur, fancy)
    return cur, view


def with_restr(I, av, restr):
    if av.elems is not None and len(av.shape) > restr[1]:
        return AV(av.shape, av.kind, av.unit, None, lay=av.lay, elems=tuple(with_restr(I, e, restr) for e in av.elems), restr=restr)
    return AV(av.shape, av.kind, av.unit, av.term, lay=av.lay, restr=restr)


def bdim_strict(I, a, b, what):
    k = peq(I, a, b)
    if k is False:
        I.throw("IndexError", f"{what}: mask does not match array ({a!r} vs {b!r})")
    if k is None:
        I.event("shape", f"{what}: lengths {a!r} and {b!r} are not known to agree")


def fancy_read(I, cur, fancy):
    if len(fancy) != 1:
        shape = bshape(I, [f[1].shape for f in fancy])
        if len(fancy) == len(cur.shape):
            t = as_poly(mk_atom("efn", ("gather", mask_bound(cur.term, cur.shape)) + tuple(f[1].term for f in fancy), real=cur.kind != "c",
                                nonneg=P.is_nonneg(cur.term)))
            return AV(shape, cur.kind, cur.unit, t, lay=tuple(UNK for _ in shape))
        raise NotImpl("multi-axis integer array indexing")
    pos, ia = fancy[0]
    n = cur.shape[pos]
    nd = len(cur.shape)
    k = pos - nd
    shape = cur.shape[:pos] + ia.shape + cur.shape[pos + 1:]
    if nd == 1:
        def f(t):
            if cur.elems is not None and all(not P.axes_of(e.term) for e in cur.elems):
                # negative constants wrap
                return P.FN["take"](tuple(e.term for e in cur.elems), t)
            tab = cur.term
            ea = None
            if tab.const() is not None or not P.axes_of(tab):
                return tab
            if affine_lay(tab, -1) is not None:
                return at_term(tab, -1, t, n)
            return as_poly(mk_atom("efn", ("gather", mask_bound(tab, cur.shape), t), real=cur.kind != "c", nonneg=P.is_nonneg(tab), integer=P.is_int(tab)))
        if ia.elems is not None:
            return restack(I, [AV(e.shape, cur.kind, cur.unit, f(e.term), lay=tuple(UNK for _ in e.shape)) for e in ia.elems], kind=cur.kind)
        return AV(shape, cur.kind, cur.unit, f(ia.term), lay=tuple(UNK for _ in shape), restr=ia.restr)
    if len(ia.shape) == 1 and pos == 0:
        el, idx = to_elems(I, cur), to_elems(I, ia)
        if idx is not None and all(x.term.const() is not None for x in idx):
            if el is not None:
                return restack(I, [el[int(x.term.const())] for x in idx], kind=cur.kind)
            return restack(I, [index_axis(I, cur, 0, x.term) for x in idx], kind=cur.kind)
        t = as_poly(mk_atom("opq", ("gather0", tuple(P.Ax(-j) for j in range(nd, 0, -1)), mask_bound(cur.term, cur.shape), mask_bound(ia.term, ia.shape)), real=cur.kind != "c"))
        return AV(shape, cur.kind, cur.unit, t, lay=(UNK,) + cur.lay[1:])
    raise NotImpl("integer array indexing of this form")


def getitem(I, o, ix):
    if isinstance(o, AV) and o.shape == ():
        if ix == () or ix is Ellipsis:
            return o
        if o.pt != "nd":
            I.throw("TypeError", "number is not subscriptable")
        I.throw("IndexError", "invalid index to scalar variable")
    bav = I.arr(o)
    if bav.shape is None:
        return Top("item")
    if isinstance(ix, (str, StrV)):
        I.throw("IndexError", "only integers, slices, ... are valid indices")
    if bav.elems is not None:
        sp = split_index(I, ix)
        if sp is not None:
            return I.cond_fork(sp[0], lambda: getitem(I, o, sp[1]), lambda: getitem(I, o, sp[2]))
    av, is_view = read_index(I, bav, ix)
    if av.shape == () and not has_slices(I, ix):
        return av.but(pt="nd")
    if not is_view:
        return I.new_arr(av)
    return I.view(o, lambda I_, b: read_index(I_, b, ix)[0], lambda I_, b, v: store(I_, b, ix, v)) if isinstance(o, Arr) else I.new_arr(av)


def split_index(I, ix):
    """A slice whose bounds depend on an undecided condition: (c, ix if c, ix if not c)."""
    found = []

    def scan(v):
        if isinstance(v, tuple):
            for x in v:
                scan(x)
        elif isinstance(v, SliceV):
            for x in (v.a, v.b):
                if isinstance(x, AV) and x.shape == () and x.term is not None and x.term.const() is None:
                    top = [a for m, _ in x.term.m for a, e in m]
                    for a in top + [b for b in P.atoms_deep(x.term) if b not in top]:
                        if P.atom_axes(a):
                            continue
                        if a.tag == "ite":
                            found.append((a.args[0], a, a.args[1], a.args[2]))
                        elif a.tag == "ind":
                            found.append((as_poly(a), a, P1, ZERO))

    scan(ix)
    if not found:
        return None
    c, atom, ta, tb = found[0]

    def put(v, t):
        if isinstance(v, tuple):
            return tuple(put(x, t) for x in v)
        if isinstance(v, SliceV):
            return SliceV(put(v.a, t), put(v.b, t), v.c)
        if isinstance(v, AV) and v.shape == () and v.term is not None:
            return v.but(term=P.subst(v.term, {atom: t}))
        return v

    return c, put(ix, ta), put(ix, tb)


def has_slices(I, ix):
    parts = ix if isinstance(ix, tuple) else (ix,)
    return any(p is Ellipsis for p in parts)


# ------------------------------------------------------------------ stores
def store(I, av, ix, v):
    """Value of av after av[ix] = v."""
    if any(RANK.index(v.kind) > RANK.index(av.kind) for _ in (0,)):
        if v.kind == "c":
            if av.kind != "c":
                if v.shape == () and v.pt == "complex":
                    I.throw("TypeError", "can't convert complex to float")
                I.event("cast", "complex values are stored into a real array, discarding the imaginary part")
                v = elementwise(I, P.FN["real"], [v], "f", v.unit, "store")
        if av.kind == "i" and v.kind == "f":
            I.event("cast", "floating point values are truncated when stored into an integer array")
            v = elementwise(I, P.FN["trunc"], [v], "i", v.unit, "store")
        if av.kind == "b":
            v = cast(I, v, "b")
    u = av.unit if v.unit is ANY else v.unit if (av.unit is ANY or av.unit is None or v.unit is None or is_blank(av)) else I.join_unit(av.unit, v.unit, "value stored into an array")
    parts = expand_index(I, ix, len(av.shape))
    # plan: per axis of av
    nd = len(av.shape)
    # elems fast path: first index constant int on the leading axis
    lead = None
    for p in parts:
        if p is None:
            continue
        lead = p
        break
    sc = scalar_int(I, lead) if lead is not None else None
    el = to_elems(I, av) if sc is not None and sc.term.const() is not None and (av.shape[0].const() or 10**9) <= 512 else None
    if el is not None and parts and parts[0] is lead:
        c = int(sc.term.const())
        if c < 0:
            c += len(el)
        if not 0 <= c < len(el):
            I.throw("IndexError", "index out of bounds")
        rest = tuple(parts[1:])
        el = list(el)
        el[c] = store(I, el[c], rest, v) if nd > 1 else fit(I, v, (), av.kind)
        return AV(av.shape, av.kind, u, None, lay=av.lay if not is_blank(av) else restack(I, el, kind=av.kind).lay, elems=tuple(el))
    if av.elems is not None and lead is not None and isinstance(lead, SliceV) and parts[0] is lead:
        s = norm_slice(I, lead, av.shape[0])
        if s.full:
            rest = tuple(parts[1:])
            vs = spread(I, v, len(av.elems), nd)
            el = [store(I, e, rest, x) for e, x in zip(av.elems, vs)]
            return AV(av.shape, av.kind, u, None, lay=el and (UNK,) + el[0].lay, elems=tuple(el))
        a, m = s.start.const(), s.n.const()
        if a is not None and m is not None and nd == 1:
            el = list(av.elems)
            vs = spread(I, v, int(m), nd)
            for j in range(int(m)):
                el[int(a) + j * s.step] = fit(I, vs[j], (), av.kind)
            return AV(av.shape, av.kind, u, None, lay=av.lay, elems=tuple(el))
    # general: indicator of the written region
    region = P1
    target = []  # (av axis, length, start) axes the value varies over
    ax = 0
    vnew = 0
    sl = []
    for p in parts:
        if p is None:
            target.append(("new", None, P1))
            continue
        sc = scalar_int(I, p)
        if sc is not None and sc.kind == "b":
            if nd == 0 and len(parts) == 1 and (v.restr is None or v.restr[0] == sc.term) and v.shape == ():
                return AV((), av.kind, u, blend(sc.term, v.term, av.term))
            raise NotImpl("boolean scalar store")
        k = ax - nd
        n = av.shape[ax]
        if isinstance(p, SliceV):
            s = norm_slice(I, p, n)
            if abs(s.step) != 1:
                return opaque_like(av, "stridestore", av.term, v.term)
            target.append(("sl", ax, s))
            ax += 1
            continue
        sc = scalar_int(I, p)
        if sc is not None:
            if sc.kind not in "ib":
                I.throw("IndexError", "only integers, slices ... are valid indices")
            i = sc.term
            if P.sign(i) == -1:
                i = i + n
            region = region * P.mk_ind("eq", P.mk_ix(n, P.Ax(k)) - i)
            target.append(("int", ax, i))
            ax += 1
            continue
        ia = val(I, p)
        if ia.kind == "b":
            r = len(ia.shape)
            if len(target) == 0 and r == nd:
                for a, b in zip(av.shape, ia.shape):
                    bdim_strict(I, a, b, "boolean index")
                m = ia.term
                if v.restr is not None:
                    if v.restr[0] != m:
                        I.event("shape", "values selected with one mask are stored through another mask")
                    vt = v
                elif v.shape == () or all(s == P1 for s in v.shape):
                    vt = v
                else:
                    I.event("shape", "boolean store of an array whose length is not the number of selected points")
                    vt = v
                nt = blend(m, vt.term, av.term)
                lay = merge_store_lay(I, av, AV(ia.shape, "b", F(0), m, lay=ia.lay), nt)
                return AV(av.shape, av.kind, u, nt, lay=lay)
            if all(t[0] == "sl" and t[2].full for t in target) and len(target) + r == nd:
                m = ia.term
                nt = blend(m, v.term, av.term)
                return AV(av.shape, av.kind, u, nt, lay=av.lay)
            raise NotImpl("boolean store of this form")
        if nd == 1 and ia.kind == "i":
            idx = to_elems(I, ia)
            if idx is not None:
                cur = av
                vs = spread(I, v, len(idx), 1)
                for q, w in zip(idx, vs):
                    cur = store(I, cur, intv(q.term), w)
                return cur
        return opaque_like(av, "fancystore", av.term, v.term, ia.term)
    if ax != nd:
        raise NotImpl("store index")
    # fit the value to the target slots
    slots = [t for t in target if t[0] in ("sl", "new")]
    tshape = tuple(t[2].n if t[0] == "sl" else P1 for t in slots)
    vv = v
    while len(vv.shape) > len(tshape):
        if vv.shape[0] != P1:
            I.throw("ValueError", "could not broadcast input array into the selected region")
        vv = drop_axis(I, vv, 0)
    for j in range(1, len(vv.shape) + 1):
        if vv.shape[-j] != P1:
            k = peq(I, vv.shape[-j], tshape[-j])
            if k is False:
                I.throw("ValueError", f"could not broadcast input array of length {vv.shape[-j]!r} into length {tshape[-j]!r}")
            if k is None:
                I.event("shape", f"store of length {vv.shape[-j]!r} into length {tshape[-j]!r}")
    # remove new axes from the value, add int axes (constant)
    if vv.elems is not None:
        vv = AV(vv.shape, vv.kind, vv.unit, vv.term, lay=vv.lay)
    t = vv.term
    lays = list(vv.lay)
    full_lays = [CST] * (len(tshape) - len(lays)) + lays
    nslots = len(slots)
    amap = {}
    for j, s in enumerate(slots):
        kk = j - nslots
        if s[0] == "new":
            t = at_term(t, kk, ZERO, P1)
        else:
            amap[kk] = s[1] - nd
    t = P.remap_axes(t, amap)
    outlay = [CST] * nd
    need_region = False
    for j, s in enumerate(slots):
        if s[0] == "sl":
            outlay[s[1]] = full_lays[j]
            if not s[2].full:
                need_region = True
    if not need_region and region == P1:
        lay = tuple(outlay)
        if v.shape == () and v.restr is None:
            lay = tuple(CST if True else x for x in av.lay)
        return AV(av.shape, av.kind, u, t, lay=lay)
    rect = P1
    for s in slots:
        if s[0] == "sl" and not s[2].full:
            a, ns = s[1], s[2]
            k = a - nd
            if ns.step != 1:
                return opaque_like(av, "stridestore", av.term, v.term)
            n = av.shape[a]
            rect = rect * place_term_const(k, ns.start, ns.n, n)
            if k in P.axes_of(t):
                t = place_term(t, k, ns.start, ns.n, n)
                x = outlay[a]
                if isinstance(x, AxInfo):
                    outlay[a] = AxInfo(x.dom, x.org + ns.start, x.tw if x.tw == ZERO else None)
            else:
                t = t * place_term_const(k, ns.start, ns.n, n)
    if av.term.is_zero():
        nt = region * t
        lay = tuple(x if not (x is CST or x == CST) else y for x, y in zip(outlay, av.lay))
    else:
        nt = region * t + (P1 - region * rect) * av.term
        lay = av.lay
    return AV(av.shape, av.kind, u, nt, lay=lay)


def place_term_const(k, start, m, n):
    ix = P.mk_ix(n, P.Ax(k))
    return P.mk_ind("ge", ix - start) * P.mk_ind("gt", start + m - ix)


def blend(c, a, b):
    """c*a + (1-c)*b"""
    if a == b:
        return a
    return c * a + (P1 - c) * b


def merge_store_lay(I, av, m, nt):
    out = []
    for x, y in zip(av.lay, m.lay):
        if x is CST or x == CST:
            out.append(y)
        elif y is CST or y == CST:
            out.append(x)
        else:
            out.append(merge_lay(I, [x, y], "masked store"))
    return tuple(out)


def is_blank(av):
    """freshly created zeros/ones/empty array whose unit is not yet determined"""
    return av.term.is_zero()


def fit(I, v, shape, kind):
    if v.shape != ():
        if all(s == P1 for s in v.shape):
            while v.shape:
                v = take0(I, v)
        else:
            I.throw("ValueError", "setting an array element with a sequence")
    return cast(I, v, kind) if RANK.index(v.kind) < RANK.index(kind) else v.but(pt="nd", kind=kind)


def spread(I, v, K, nd):
    if len(v.shape) < nd or v.shape == ():
        return [v] * K
    if v.shape[0] == P1 and K != 1:
        return [take0(I, v)] * K
    e = to_elems(I, v)
    if e is None:
        e = [index_axis(I, v, 0, as_poly(j)) for j in range(K)]
    if len(e) != K:
        I.throw("ValueError", "could not broadcast input array")
    return e


def setitem(I, o, ix, v):
    if isinstance(v, Top):
        bav = I.arr(o)
        I.write_arr(o, opaque_like(bav, "unknownstore", bav.term), "item assignment")
        return
    if v is None or isinstance(v, (str, StrV)):
        I.throw("TypeError" if v is None else "ValueError", "could not convert to float")
    bav = I.arr(o)
    if isinstance(ix, (str, StrV)):
        I.throw("IndexError", "only integers, slices, ... are valid indices")
    vv = val(I, v)
    c = I.cell(o)
    I.check_owner(c, "item assignment to an element")
    nv = store(I, bav, ix, vv)
    # owner already checked; write through views
    saved = c.owner
    I.write_arr_quiet(o, nv) if hasattr(I, "write_arr_quiet") else I.write_arr(o, nv, "item assignment to an element")
