"""Value numbers.

A value number is a hash-consed polynomial with rational coefficients over *atoms*.
Atoms are input symbols, opaque library results, or applications of modelled
elementwise functions.  Two expressions that compute the same thing by different
spelling (helper extracted, temporaries introduced, commuted operands, ...) get the
same value number because construction normalises:

  * commutative/associative arithmetic, rational exponents, exp/sin/cos/abs/angle laws,
  * indicator (0/1) atoms are idempotent,
  * np.roll / fftshift amounts are pushed onto the base arrays, modulo the axis length,
  * one-dimensional FFTs are linear, commute over different axes and cancel against
    their inverse.

Array valued atoms carry *axis tags* (Ax): position counted from the last axis
(-1 = last axis), which makes numpy broadcasting the identity on value numbers.
"""
from fractions import Fraction
import itertools

F = Fraction
ONE = F(1)


def _memo1(f):
    tab = {}

    def g(p):
        try:
            return tab[p.id]
        except KeyError:
            r = tab[p.id] = f(p)
            return r

    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


def _memo2(f):
    tab = {}

    def g(p, e):
        k = (p.id, e)
        try:
            return tab[k]
        except KeyError:
            r = tab[k] = f(p, e)
            return r

    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


class Ax:
    """Axis tag.  k<0: position from the end.  k>0: bound (reduction) axis. str: loop axis."""

    __slots__ = ("k",)
    _tab = {}

    def __new__(cls, k):
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.k = k
            cls._tab[k] = o
        return o

    def __repr__(self):
        return f"@{self.k}"

    def __deepcopy__(self, memo):
        return self


class Atom:
    """Interned function application / symbol."""

    __slots__ = ("tag", "args", "id", "real", "nonneg", "pos", "integer", "lb", "par", "_axes", "_syms", "_deep")
    _tab = {}
    _ids = itertools.count(1)

    def __repr__(self):
        return atom_str(self)


def mk_atom(tag, args=(), real=True, nonneg=False, pos=False, integer=False, lb=None, par=None):
    if tag == "sym" or tag == "in":
        # what is known of an input belongs to its identity: other scenarios reuse the name with other assumptions
        pos = pos or (lb is not None and lb > 0)
        nonneg = nonneg or pos or (lb is not None and lb >= 0)
        key = (tag, args, real, pos, nonneg, integer, lb, par)
    else:
        key = (tag, args)
    a = Atom._tab.get(key)
    if a is None:
        a = object.__new__(Atom)
        a.tag, a.args, a.id = tag, args, next(Atom._ids)
        a.real = real
        a.pos = pos or (lb is not None and lb > 0)
        a.nonneg = nonneg or a.pos or (lb is not None and lb >= 0)
        a.integer = integer
        a.lb = lb
        a.par = par  # parity of an integer symbol: 0 even, 1 odd, None unknown
        a._axes = a._syms = a._deep = None
        Atom._tab[key] = a
    return a


class Poly:
    """Immutable polynomial: mapping mono -> coefficient.  mono = tuple((atom, exp), ...)."""

    __slots__ = ("m", "id", "_axes", "_syms")
    _tab = {}
    _ids = itertools.count(1)

    def __repr__(self):
        return poly_str(self)

    def __deepcopy__(self, memo):
        return self

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        o = as_poly(o)
        d = dict(self.m)
        for k, v in o.m:
            nv = d.get(k, 0) + v
            if nv:
                d[k] = nv
            else:
                d.pop(k, None)
        return mk_poly(d)

    __radd__ = __add__

    def __neg__(self):
        return mk_poly({k: -v for k, v in self.m})

    def __sub__(self, o):
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) - self

    def __mul__(self, o):
        return pmul(self, as_poly(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * ppow(as_poly(o), F(-1))

    def is_zero(self):
        return not self.m

    def const(self):
        """Rational value if constant, else None."""
        if not self.m:
            return F(0)
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None

    def single(self):
        """(mono, coef) if a single monomial."""
        if len(self.m) == 1:
            return self.m[0]
        return None


def mk_poly(d):
    key = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda kv: _mono_key(kv[0])))
    p = Poly._tab.get(key)
    if p is None:
        p = object.__new__(Poly)
        p.m = key
        p.id = next(Poly._ids)
        p._axes = p._syms = None
        Poly._tab[key] = p
    return p


def _mono_key(mono):
    return tuple((a.id, e) for a, e in mono)


def as_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return mk_poly({((x, ONE),): ONE})
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return mk_poly({(): F(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return mk_poly({(): x}) if x else ZERO
    if isinstance(x, float):
        return mk_poly({(): F(repr(x))}) if x else ZERO
    if isinstance(x, complex):
        return as_poly(x.real) + as_poly(x.imag) * I
    raise TypeError(x)


ZERO = mk_poly({})
P1 = mk_poly({(): ONE})
I_ATOM = mk_atom("I", (), real=False)
PI_ATOM = mk_atom("pi", (), pos=True)
I = as_poly(I_ATOM)
PI = as_poly(PI_ATOM)


def sym(name, **kw):
    return as_poly(mk_atom("sym", (name,), **kw))


def arr(name, axes, **kw):
    """Input array: varies over `axes` (ints <0), with no roll."""
    return as_poly(mk_atom("in", (name, tuple((Ax(a), ZERO) for a in axes)), **kw))


# ---------------------------------------------------------------- monomials
def mono_mul(m1, m2):
    """Product of monomials -> (coef poly or None, mono).  Returns list of (mono,coef)."""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return mono_norm(d)


def mono_norm(d):
    """Normalise {atom: exp} -> (coef, mono, extra polys to multiply)."""
    coef = ONE
    extra = []
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        t = a.tag
        if t == "I" and e.denominator == 1:
            r = int(e) % 4
            if r == 2 or r == 3:
                coef = -coef
            if r in (1, 3):
                out[a] = ONE
            continue
        if t == "ind" and e > 0:
            out[a] = ONE
            continue
        if t == "P" and e.denominator == 1 and e > 0:
            extra.append((a.args[0], int(e)))
            continue
        if t == "num" and e.denominator == 1:
            coef *= a.args[0] ** int(e)
            continue
        if t == "num" and abs(e) >= 1:
            k = int(e)
            coef *= a.args[0] ** k
            e = e - k
        out[a] = e
    # abs(X)*exp(I*angle(X)) -> X
    for a in list(out):
        if a.tag == "phase" and a in out:
            x = a.args[0]
            e = out[a]
            if e > 0 and e.denominator == 1:
                ab = fn_abs(x)
                s = ab.single()
                if s is not None and s[1] == 1 and all(out.get(b, 0) >= be for b, be in s[0]) and s[0]:
                    for b, be in s[0]:
                        out[b] = out[b] - be
                        if out[b] == 0:
                            del out[b]
                    out[a] = e - 1
                    if out[a] == 0:
                        del out[a]
                    extra.append((x, 1))
                    # coefficient of x itself was dropped from phase normal form
    mono = tuple(sorted(out.items(), key=lambda ae: ae[0].id))
    return coef, mono, extra


_MUL = {}


def pmul(p, q):
    k = (p.id, q.id) if p.id < q.id else (q.id, p.id)
    r = _MUL.get(k)
    if r is None:
        r = _MUL[k] = _pmul(p, q)
    return r


def _pmul(p, q):
    d = {}
    extras = []
    for m1, c1 in p.m:
        for m2, c2 in q.m:
            if not m1:
                k, c, ex = m2, c1 * c2, None
            elif not m2:
                k, c, ex = m1, c1 * c2, None
            else:
                cc, k, ex = mono_mul(m1, m2)
                c = c1 * c2 * cc
            if ex:
                r = mk_poly({k: c})
                for b, n in ex:
                    for _ in range(n):
                        r = pmul(r, b)
                extras.append(r)
            else:
                nv = d.get(k, 0) + c
                if nv:
                    d[k] = nv
                else:
                    d.pop(k, None)
    r = mk_poly(d)
    for e in extras:
        r = r + e
    return r


def _isqrt_frac(c):
    """exact sqrt of nonneg Fraction or None"""
    import math

    n, d = c.numerator, c.denominator
    if n < 0:
        return None
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return F(a, b)
    return None


def num_pow(c, e):
    """c**e for positive Fraction c, rational e -> Poly."""
    if e.denominator == 1:
        return as_poly(c ** int(e))
    if e.denominator == 2:
        r = _isqrt_frac(c)
        if r is not None:
            return as_poly(r ** int(e * 2))
    k = e.numerator // e.denominator
    rest = e - k
    return mk_poly({((mk_atom("num", (c,), pos=True), rest),): c ** k})


def mk_ix(n, ax, roll=None):
    """Index along axis ax (0..n-1), rolled."""
    return as_poly(mk_atom("ix", (as_poly(n), ax, ZERO if roll is None else roll), nonneg=True, integer=True))


def mk_fftfreq(n, ax):
    """Signed integer frequency index of np.fft.fftfreq (times n*d)."""
    return as_poly(mk_atom("fftfreq", (as_poly(n), ax, ZERO), integer=True))


@_memo2
def ppow(p, e):
    e = F(e)
    if e == 0:
        return P1
    if e == 1:
        return p
    s = p.single()
    if s is None:
        if p.is_zero():
            return ZERO if e > 0 else as_poly(mk_atom("inf", (), real=True))
        if e.denominator == 1 and 0 < e <= 8:
            r = P1
            for _ in range(int(e)):
                r = pmul(r, p)
            return r
        # factor out common content so that c*(a+b) and (a+b) share the base
        cont, prim = content(p)
        base = as_poly(mk_atom("P", (prim,), real=is_real(prim), nonneg=is_nonneg(prim), pos=is_pos(prim)))
        if cont.const() == 1:
            at = base.single()[0][0][0]
            if e.denominator == 1 and e > 0:
                r = P1
                for _ in range(int(e)):
                    r = pmul(r, p)
                return r
            return mk_poly({((at, e),): ONE})
        if e.denominator == 1 or is_nonneg(cont):
            return pmul(ppow(cont, e), ppow(prim, e))
        at = mk_atom("P", (p,), real=is_real(p), nonneg=is_nonneg(p))
        return mk_poly({((at, e),): ONE})
    mono, c = s
    if e.denominator == 1:
        r = as_poly(c ** int(e))
        d = {a: ae * e for a, ae in mono}
        cc, k, ex = mono_norm(d)
        r = pmul(r, mk_poly({k: cc}))
        for b, n in ex:
            for _ in range(n):
                r = pmul(r, b)
        return r
    # fractional power of a monomial
    if c > 0:
        # split if every factor is nonnegative
        unsafe = []
        r = num_pow(c, e)
        for a, ae in mono:
            f = mk_poly({((a, ae),): ONE})
            if is_nonneg(f):
                if a.tag == "abs" and False:
                    pass
                if (not a.nonneg) and ae.denominator == 1 and int(ae) % 2 == 0:
                    # (x**2k)**e = abs(x)**(2k e)
                    ab = fn_abs(as_poly(a)) if a.real else None
                    if ab is None:
                        unsafe.append((a, ae))
                        continue
                    r = pmul(r, ppow(ab, ae * e))
                elif a.tag == "P":
                    r = pmul(r, ppow(a.args[0], ae * e))
                elif a.tag == "ind":
                    r = pmul(r, mk_poly({((a, ONE),): ONE})) if e > 0 else pmul(r, mk_poly({((a, ae * e),): ONE}))
                else:
                    r = pmul(r, mk_poly({((a, ae * e),): ONE}))
            else:
                unsafe.append((a, ae))
        if not unsafe:
            return r
        rest = mk_poly({tuple(unsafe): ONE})
        at = mk_atom("P", (rest,), real=is_real(rest), nonneg=False)
        return pmul(r, mk_poly({((at, e),): ONE}))
    at = mk_atom("P", (p,), real=is_real(p), nonneg=False)
    return mk_poly({((at, e),): ONE})


@_memo1
def content(p):
    """Split p = cont * prim, cont a monomial of scalar/positive content with rational coef."""
    monos = [dict(m) for m, _ in p.m]
    common = None
    for m in monos:
        if common is None:
            common = dict(m)
        else:
            for a in list(common):
                if a in m:
                    e1, e2 = common[a], m[a]
                    common[a] = min(e1, e2)
                else:
                    e1 = common[a]
                    if e1 > 0:
                        del common[a]
                    # negative exponents: common factor a**e1 can be pulled out
    # also pull negative exponents present in some monos only
    for m in monos:
        for a, e in m.items():
            if e < 0 and common.get(a, 0) > e:
                common[a] = e
    common = {a: e for a, e in (common or {}).items() if e}
    # indicator content is idempotent: a factor shared by every mono may be pulled out but
    # (ind)*(rest) with ind kept only outside
    coef = p.m[0][1]
    lead = coef if coef > 0 else coef
    lead = abs(lead) if True else lead
    cm = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
    cont = mk_poly({cm: lead})
    if cm == () and lead == 1:
        return P1, p
    prim = {}
    for m, c in p.m:
        d = dict(m)
        for a, e in common.items():
            d[a] = d.get(a, 0) - e
            if d[a] == 0:
                del d[a]
        k = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
        prim[k] = prim.get(k, 0) + c / lead
    return cont, mk_poly(prim)


# ---------------------------------------------------------------- predicates
@_memo1
def is_real(p):
    for m, _ in p.m:
        k = 0
        for a, e in m:
            if a.tag == "I":
                k += int(e)
            elif not a.real:
                return False
        if k % 2:
            return False
    return True


def mono_nonneg(m):
    k = 0
    for a, e in m:
        if a.tag == "I":
            return False
        if a.nonneg or a.tag == "ind":
            continue
        if a.tag == "P" and e.denominator != 1 and a.real:
            continue  # principal root (nan otherwise)
        if a.real and e.denominator == 1 and int(e) % 2 == 0:
            continue
        return False
    return True


@_memo1
def is_nonneg(p):
    if not p.m:
        return True
    if all(c > 0 and mono_nonneg(m) for m, c in p.m):
        return True
    s = sign(p)
    return s is not None and s >= 0


def mono_pos(m):
    return all(a.pos for a, e in m)


@_memo1
def is_pos(p):
    if not p.m:
        return False
    if all(c > 0 and mono_nonneg(m) for m, c in p.m) and any(mono_pos(m) for m, c in p.m):
        return True
    return sign(p) == 1


@_memo1
def sign(p):
    """-1, 0, 1, or None.  Uses lower bounds of symbols: s = lb + s', s' >= 0."""
    c = p.const()
    if c is not None:
        return (c > 0) - (c < 0)
    # substitute lower bounds
    q = p
    need = set()
    for m, _ in p.m:
        for a, e in m:
            if a.lb is not None and e.denominator == 1 and e > 0 and a.lb != 0:
                need.add(a)
    if need:
        q = subst(p, {a: as_poly(a.lb) + as_poly(mk_atom("off", (a.id,), nonneg=True, integer=a.integer)) for a in need})
    pos = neg = False
    for m, c in q.m:
        if not mono_nonneg(m):
            return None
        if c > 0:
            if mono_pos(m):
                pos = True
        else:
            if mono_pos(m):
                neg = True
    allp = all(c > 0 for _, c in q.m)
    alln = all(c < 0 for _, c in q.m)
    if allp and pos:
        return 1
    if alln and neg:
        return -1
    return None


def nonneg_by_sign(p):
    """True if p >= 0 provable, False if p <= 0 nonstrict / unknown -> None."""
    c = p.const()
    if c is not None:
        return c >= 0
    q = p
    need = set()
    for m, _ in p.m:
        for a, e in m:
            if a.lb is not None and e.denominator == 1 and e > 0 and a.lb != 0:
                need.add(a)
    if need:
        q = subst(p, {a: as_poly(a.lb) + as_poly(mk_atom("off", (a.id,), nonneg=True, integer=a.integer)) for a in need})
    if all(mono_nonneg(m) for m, _ in q.m):
        if all(c > 0 for _, c in q.m):
            return True
    return None


def parity_expand(p):
    """Replace symbols n of known parity by 2*h(n)+parity (top level, positive integer powers)."""
    hit = False
    for m, _ in p.m:
        for a, e in m:
            if a.par is not None:
                if e.denominator != 1 or e < 0:
                    return p
                hit = True
    if not hit:
        return p
    return map_atoms(p, lambda a: as_poly(a) if a.par is None else as_poly(
        mk_atom("half", (a,), integer=True, lb=None if a.lb is None else (a.lb - a.par) // 2)) * 2 + a.par)


def parity_back(p):
    if not any(a.tag == "half" for m, _ in p.m for a, e in m):
        return p
    return map_atoms(p, lambda a: (as_poly(a.args[0]) - a.args[0].par) * F(1, 2) if a.tag == "half" else as_poly(a))


def is_int(p):
    if any(c.denominator != 1 for m, c in p.m):
        p = parity_expand(p)
    for m, c in p.m:
        if c.denominator != 1:
            return False
        for a, e in m:
            if not a.integer or e.denominator != 1 or e < 0:
                return False
    return True


# ---------------------------------------------------------------- traversal
def map_atoms(p, f):
    """Rebuild p replacing each atom a by poly f(a)."""
    r = ZERO
    for m, c in p.m:
        t = as_poly(c)
        for a, e in m:
            t = pmul(t, ppow(f(a), e))
        r = r + t
    return r


def rebuild_args(args, fp):
    """Map polys inside an args structure with fp."""
    out = []
    for x in args:
        if isinstance(x, Poly):
            out.append(fp(x))
        elif isinstance(x, tuple):
            out.append(rebuild_args(x, fp))
        else:
            out.append(x)
    return tuple(out)


def subst(p, mp, memo=None):
    """Substitute atoms (deep) by polys."""
    if memo is None:
        memo = {}

    def fp(q):
        r = memo.get(q.id)
        if r is None:
            r = map_atoms(q, fa)
            memo[q.id] = r
        return r

    def fa(a):
        if a in mp:
            return mp[a]
        if not a.args:
            return as_poly(a)
        na = rebuild_args(a.args, fp)
        if na == a.args:
            return as_poly(a)
        return remake(a, na)

    return fp(p)


def remake(a, na):
    """Re-apply smart constructor for atom a with new args."""
    t = a.tag
    if t in FN:
        return FN[t](*na)
    if t == "ind":
        return mk_ind(*na)
    if t == "P":
        return ppow(na[0], 1)
    if t == "expb":
        return fn_exp(na[0])
    if t == "phase":
        return fn_phase(na[0])
    if t == "fft":
        return fft1(*na)
    if t == "red":
        return as_poly(mk_atom("red", na, real=a.real, nonneg=a.nonneg))
    return as_poly(mk_atom(t, na, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer, lb=a.lb))


def axes_of(p):
    if p._axes is None:
        s = frozenset()
        for m, _ in p.m:
            for a, e in m:
                s |= atom_axes(a)
        p._axes = s
    return p._axes


def _binders(a):
    """Keys (positive ints) bound by atom a in its arguments."""
    t = a.tag
    if t == "red":
        return (a.args[1].k,)
    if t == "at":
        return (a.args[0].k,)
    if t == "bins":
        return (a.args[2].k,)
    if t in ("lam", "argmax", "argmin"):
        return tuple(x.k for x in a.args[0])
    if t == "opq" and a.args[0] == "flat":
        return tuple(x.k for x in a.args[2])
    return ()


def atom_axes(a):
    """Free axis keys: negative ints (array axes), strings (loop axes), positive ints (axes bound further out)."""
    if a._axes is None:
        s = set()

        def walk(args):
            for x in args:
                if isinstance(x, Ax):
                    s.add(x.k)
                elif isinstance(x, Poly):
                    s.update(axes_of(x))
                elif isinstance(x, tuple):
                    walk(x)

        walk(a.args)
        s.difference_update(_binders(a))
        a._axes = frozenset(s)
    return a._axes


def lam(t, f, sizes=None):
    """Close t over the axis keys in f (mapping key -> offset): an anonymous array.

    args: (bound axis tags, body, axis offsets, axis lengths)"""
    f = {k: v for k, v in f.items() if k in axes_of(t)}
    if not f:
        return t
    b = _max_bound(t)
    ks = sorted(f, key=lambda k: f[k])
    mp = {k: b + f[k] for k in ks}
    body = remap_axes(t, mp)
    sz = tuple(as_poly(sizes[k]) if sizes else ZERO for k in ks)
    return as_poly(mk_atom("lam", (tuple(Ax(mp[k]) for k in ks), body, tuple(as_poly(f[k]) for k in ks), sz), real=is_real(t),
                           nonneg=is_nonneg(t), integer=is_int(t)))


def axkey(k):
    return (1, 0, k) if isinstance(k, str) else (0, k, "")


def syms_of(p):
    """All 'sym'/'in'/opaque-input names (deep)."""
    if p._syms is None:
        s = frozenset()
        for m, _ in p.m:
            for a, e in m:
                s |= atom_syms(a)
        p._syms = s
    return p._syms


def atom_syms(a):
    if a._syms is None:
        s = set()
        if a.tag in ("sym", "in"):
            s.add(a.args[0])

        def walk(args):
            for x in args:
                if isinstance(x, Poly):
                    s.update(syms_of(x))
                elif isinstance(x, tuple):
                    walk(x)

        walk(a.args)
        a._syms = frozenset(s)
    return a._syms


def atoms_deep(p, acc=None):
    if acc is None:
        acc = set()
    for m, _ in p.m:
        for a, e in m:
            if a not in acc:
                acc.add(a)

                def walk(args):
                    for x in args:
                        if isinstance(x, Poly):
                            atoms_deep(x, acc)
                        elif isinstance(x, tuple):
                            walk(x)

                walk(a.args)
    return acc


def remap_axes(p, f, memo=None):
    """f: dict old->new for axis keys."""
    f = {k: v for k, v in f.items() if k != v}
    if not f or not (axes_of(p) & set(f)):
        return p
    if memo is None:
        memo = {}

    def fp(q):
        if not (axes_of(q) & set(f)):
            return q
        r = memo.get(q.id)
        if r is None:
            r = map_atoms(q, fa)
            memo[q.id] = r
        return r

    def fargs(args):
        out = []
        for x in args:
            if isinstance(x, Ax):
                out.append(Ax(f[x.k]) if x.k in f else x)
            elif isinstance(x, Poly):
                out.append(fp(x))
            elif isinstance(x, tuple):
                out.append(fargs(x))
            else:
                out.append(x)
        return tuple(out)

    def fa(a):
        if not (atom_axes(a) & set(f)):
            return as_poly(a)
        return remake(a, fargs(a.args))

    return fp(p)


def _max_bound(p):
    mx = 0
    for a in atoms_deep(p):
        def walk(args):
            nonlocal mx
            for x in args:
                if isinstance(x, Ax) and isinstance(x.k, int) and x.k > 0:
                    mx = max(mx, x.k)
                elif isinstance(x, tuple):
                    walk(x)
        walk(a.args)
    return mx


# ---------------------------------------------------------------- integer ops
def floordiv(p, q):
    ep, eq = parity_expand(p), parity_expand(q)
    if ep is p and eq is q:
        return floordiv0(p, q)
    r = floordiv0(ep, eq)
    if any(a.tag == "floordiv" for m, _ in r.m for a, _ in m):
        return as_poly(mk_atom("floordiv", (p, q), integer=True, nonneg=is_nonneg(p) and is_pos(q)))
    return parity_back(r)


def floordiv0(p, q):
    if q.const() == 1:
        return p
    s = q.single()
    if s is not None:
        mono, c = s
        quo, rem = {}, {}
        for m, k in p.m:
            d = dict(m)
            ok = True
            for a, e in mono:
                if d.get(a, 0) >= e:
                    d[a] = d[a] - e
                    if d[a] == 0:
                        del d[a]
                else:
                    ok = False
            if ok and (k / c).denominator == 1:
                quo[tuple(sorted(d.items(), key=lambda ae: ae[0].id))] = k / c
            else:
                rem[m] = k
        rp = mk_poly(rem)
        qp = mk_poly(quo)
        if rp.is_zero():
            return qp
        rc = rp.const()
        if rc is not None and mono == () and is_int(qp):
            fl = (rc / c).numerator // (rc / c).denominator
            return qp + fl
        if is_int(qp):
            # 0 <= rem < q  -> quotient is exactly qp
            if nonneg_by_sign(rp) and sign(q - rp) == 1:
                return qp
            # q = e.g. 2g+1 handled below
            if not qp.is_zero():
                return qp + floordiv0(rp, q)
    # symbolic polynomial divisor: try exact polynomial division
    ex = exact_div(p, q)
    if ex is not None:
        return ex
    # try p = q*t + r with r const small: strip constant
    c = p.const()
    if c == 0:
        return ZERO
    if nonneg_by_sign(p) and sign(q - p) == 1:
        return ZERO
    dv = divmod_poly(p, q)
    if dv is not None:
        return dv[0]
    return as_poly(mk_atom("floordiv", (p, q), integer=True, nonneg=is_nonneg(p) and is_pos(q)))


def divmod_poly(p, q):
    """Multivariate division with remainder, valid if 0<=r<q provable and quotient integer."""
    if q.is_zero():
        return None
    lead_q = max(q.m, key=lambda mc: (sum(e for _, e in mc[0]), mc[0] and tuple((a.id, e) for a, e in mc[0])))
    quo, r = ZERO, p
    for _ in range(12):
        hit = False
        for m, k in r.m:
            d = dict(m)
            ok = True
            for a, e in lead_q[0]:
                if d.get(a, 0) >= e:
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                else:
                    ok = False
            if ok and (k / lead_q[1]).denominator == 1:
                t = mk_poly({tuple(sorted(d.items(), key=lambda ae: ae[0].id)): k / lead_q[1]})
                quo = quo + t
                r = r - t * q
                hit = True
                break
        if not hit or r.is_zero():
            break
    if not is_int(quo):
        return None
    for _ in range(3):
        if nonneg_by_sign(r) and sign(q - r) == 1:
            return quo, r
        if sign(r) == -1:
            quo, r = quo - 1, r + q
        else:
            break
    return None


def exact_div(p, q):
    if q.is_zero():
        return None
    lead_q = max(q.m, key=lambda mc: (sum(e for _, e in mc[0]), tuple((a.id, e) for a, e in mc[0])))
    quo, r = ZERO, p
    for _ in range(24):
        if r.is_zero():
            return quo if is_int(quo) else None
        hit = False
        for m, k in r.m:
            d = dict(m)
            ok = True
            for a, e in lead_q[0]:
                if d.get(a, 0) >= e:
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                else:
                    ok = False
            if ok:
                t = mk_poly({tuple(sorted(d.items(), key=lambda ae: ae[0].id)): k / lead_q[1]})
                quo = quo + t
                r = r - t * q
                hit = True
                break
        if not hit:
            return None
    return None


def mod(p, q):
    fd = floordiv(p, q)
    if any(a.tag == "floordiv" and a.args == (p, q) for m, _ in fd.m for a, _ in m):
        # parity of products etc.
        return as_poly(mk_atom("mod", (p, q), integer=True, nonneg=True))
    return p - fd * q


# ---------------------------------------------------------------- roll
def reduce_mod(r, n):
    """Canonical representative of r modulo n (polys)."""
    c = n.const()
    if c is not None:
        rc = r.const()
        if rc is not None and c != 0:
            return as_poly(rc - c * ((rc / c).numerator // (rc / c).denominator))
        return r
    lead = max(n.m, key=lambda mc: (sum(e for _, e in mc[0]), tuple((a.id, e) for a, e in mc[0])))
    for m, k in r.m:
        if m == lead[0]:
            q = k / lead[1]
            fl = q.numerator // q.denominator
            return r - as_poly(fl) * n if fl else r
    # r has no leading term; represent as is, unless negative constant-like => keep
    return r


def _roll_entry(entry, amt, n):
    return reduce_mod(entry + amt, n)


def roll(p, k, amt, n):
    """np.roll of value number along axis k (from end) by amt; axis length n."""
    if k not in axes_of(p) or reduce_mod(amt, n).is_zero():
        return p
    memo = {}

    def fp(q):
        if k not in axes_of(q):
            return q
        r = memo.get(q.id)
        if r is None:
            r = map_atoms(q, fa)
            memo[q.id] = r
        return r

    def fa(a):
        if k not in atom_axes(a):
            return as_poly(a)
        t = a.tag
        if t == "in":
            name, ax = a.args
            nax = tuple((x, _roll_entry(r, amt, n) if x.k == k else r) for x, r in ax)
            return remake(a, (name, nax))
        if t in ("ix", "fftfreq"):
            # args (.., Ax, roll)
            return remake(a, a.args[:-1] + (_roll_entry(a.args[-1], amt, n),))
        if t == "fft":
            inv, ax, arg, r = a.args
            if ax.k == k:
                return fft1(inv, ax, arg, _roll_entry(r, amt, n))
            return fft1(inv, ax, fp(arg), r)
        if t in ELEMENTWISE or t == "ind":
            return remake(a, rebuild_args(a.args, fp))
        if t == "roll" and a.args[0].k == k:
            r2 = _roll_entry(a.args[1], amt, n)
            if r2.is_zero():
                return a.args[2]
            return as_poly(mk_atom("roll", (a.args[0], r2, a.args[2]), real=a.real, nonneg=a.nonneg))
        if t == "red":
            return remake(a, rebuild_args(a.args, fp))
        return as_poly(
            mk_atom("roll", (Ax(k), reduce_mod(amt, n), as_poly(a)), real=a.real, nonneg=a.nonneg, integer=a.integer)
        )

    return fp(p)


# ---------------------------------------------------------------- functions
def _neg_lead(p):
    """True if the leading coefficient is negative (canonical sign)."""
    return bool(p.m) and p.m[0][1] < 0


def _unary(name, p, **kw):
    return as_poly(mk_atom(name, (p,), **kw))


def fn_sin(p):
    if p.is_zero():
        return ZERO
    if _neg_lead(p):
        return -fn_sin(-p)
    s = p.single()
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1:
        a = s[0][0][0]
        if a.tag == "arcsin":
            return a.args[0]
        if a.tag == "arccos":
            return ppow(P1 - a.args[0] * a.args[0], F(1, 2))
    return _unary("sin", p)


def fn_cos(p):
    if p.is_zero():
        return P1
    if _neg_lead(p):
        return fn_cos(-p)
    s = p.single()
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1:
        a = s[0][0][0]
        if a.tag == "arcsin":
            return ppow(P1 - a.args[0] * a.args[0], F(1, 2))
        if a.tag == "arccos":
            return a.args[0]
    return _unary("cos", p)


def fn_tan(p):
    return fn_sin(p) / fn_cos(p)


def fn_arcsin(p):
    if p.is_zero():
        return ZERO
    if _neg_lead(p):
        return -fn_arcsin(-p)
    return _unary("arcsin", p, nonneg=is_nonneg(p))


def fn_arccos(p):
    return _unary("arccos", p, nonneg=True)


def fn_arctan(p):
    return _unary("arctan", p)


def fn_arctan2(y, x):
    # arctan2 is invariant under common positive scaling
    sy = y.single()
    if sy is not None and x.single() is not None:
        sx = x.single()
        cm = {}
        dy, dx = dict(sy[0]), dict(sx[0])
        for a in set(dy) & set(dx):
            if a.pos or (a.tag == "P" and a.pos):
                e = min(dy[a], dx[a])
                cm[a] = e
        cy = abs(sy[1])
        if cm or cy != 1:
            sc = mk_poly({tuple(sorted(((a, -e) for a, e in cm.items()), key=lambda ae: ae[0].id)): 1 / cy})
            y, x = y * sc, x * sc
    return as_poly(mk_atom("arctan2", (y, x)))


def fn_exp(p):
    """exp: split sums into products; each monomial c*m -> expb(m)**c."""
    if p.is_zero():
        return P1
    r = P1
    for m, c in p.m:
        base = mk_poly({m: ONE})
        # exp(I*angle(x)) -> phase
        d = dict(m)
        if d.get(I_ATOM) == 1 and len(m) == 2 and c.denominator == 1:
            other = [a for a, e in m if a is not I_ATOM][0]
            if other.tag == "angle" and d[other] == 1:
                ph = fn_phase(other.args[0])
                r = pmul(r, ppow(ph, c))
                continue
        at = mk_atom("expb", (base,), real=is_real(base), pos=is_real(base))
        r = pmul(r, mk_poly({((at, c),): ONE}))
    return r


def _is_unimodular(a):
    """|a| == 1?"""
    if a.tag == "expb":
        b = a.args[0]
        return is_real(b * I)
    if a.tag == "phase":
        return True
    if a.tag == "I":
        return True
    return False


def fn_phase(x):
    """exp(i*angle(x)); drop positive real factors of x."""
    s = x.single()
    if s is not None:
        mono, c = s
        keep = []
        for a, e in mono:
            f = mk_poly({((a, e),): ONE})
            if a.pos and is_real(f):
                continue
            keep.append((a, e))
        x = mk_poly({tuple(keep): ONE if c > 0 else -ONE})
        if x.const() is not None:
            return x
    at = mk_atom("phase", (x,), real=False)
    return as_poly(at)


def fn_angle(p):
    s = p.single()
    if s is not None:
        mono, c = s
        keep = tuple((a, e) for a, e in mono if not (a.pos and a.real))
        p = mk_poly({keep: ONE if c > 0 else -ONE})
    return _unary("angle", p, real=True)


def fn_abs(p):
    if p.is_zero():
        return ZERO
    s = p.single()
    if s is None:
        if is_real(p) and is_nonneg(p):
            return p
        if _neg_lead(p):
            p = -p
            if is_real(p) and is_nonneg(p):
                return p
        # common monomial factor out
        cont, prim = content(p)
        if cont.const() != 1:
            return pmul(fn_abs(cont), fn_abs(prim))
        return _unary("abs", p, nonneg=True)
    mono, c = s
    r = as_poly(abs(c))
    for a, e in mono:
        if _is_unimodular(a):
            continue
        f = mk_poly({((a, e),): ONE})
        if is_real(f) and mono_nonneg(((a, e),)):
            r = pmul(r, f)
        else:
            ab = as_poly(mk_atom("abs", (as_poly(a),), nonneg=True))
            r = pmul(r, ppow(ab, e))
    return r


def fn_real(p):
    if is_real(p):
        return p
    return _unary("real", p)


def fn_imag(p):
    if is_real(p):
        return ZERO
    return _unary("imag", p)


def fn_conj(p):
    if is_real(p):
        return p
    r = ZERO
    for m, c in p.m:
        t = as_poly(c)
        for a, e in m:
            if a.real:
                t = pmul(t, mk_poly({((a, e),): ONE}))
            elif a.tag == "I":
                t = pmul(t, ppow(-I, e))
            elif _is_unimodular(a):
                t = pmul(t, mk_poly({((a, -e),): ONE}))
            else:
                t = pmul(t, ppow(_unary("conj", as_poly(a), real=False), e))
        r = r + t
    # z*conj(z) is left as is
    return r


def fn_max(p, q):
    """fmax / maximum."""
    if p == q:
        return p
    s = nonneg_by_sign(p - q)
    if s:
        return p
    if nonneg_by_sign(q - p):
        return q
    if p.is_zero() and is_nonneg(q):
        return q
    if q.is_zero() and is_nonneg(p):
        return p
    a, b = sorted((p, q), key=lambda t: t.id)
    return as_poly(mk_atom("max", (a, b), nonneg=is_nonneg(p) or is_nonneg(q), pos=is_pos(p) or is_pos(q), integer=is_int(p) and is_int(q)))


def fn_min(p, q):
    if p == q:
        return p
    if nonneg_by_sign(p - q):
        return q
    if nonneg_by_sign(q - p):
        return p
    a, b = sorted((p, q), key=lambda t: t.id)
    return as_poly(mk_atom("min", (a, b), nonneg=is_nonneg(p) and is_nonneg(q), pos=is_pos(p) and is_pos(q), integer=is_int(p) and is_int(q)))


def num_eval(p):
    """Decimal value of a constant expression (rationals, roots of rationals, pi), or None."""
    import decimal

    with decimal.localcontext() as ctx:
        ctx.prec = 60
        D = decimal.Decimal
        tot = D(0)
        for m, c in p.m:
            t = D(c.numerator) / D(c.denominator)
            for a, e in m:
                if a.tag == "num":
                    b = D(a.args[0].numerator) / D(a.args[0].denominator)
                elif a.tag == "pi":
                    b = D("3.14159265358979323846264338327950288419716939937510582097494")
                else:
                    return None
                if e.denominator == 1:
                    t *= b ** int(e)
                elif e.denominator == 2:
                    t *= b.sqrt() ** int(e * 2)
                else:
                    return None
            tot += t
        return tot


def fn_round(name):
    import decimal

    def f(p):
        if is_int(p):
            return p
        v = num_eval(p)
        if v is not None:
            c = p.const()
            if c is None:
                near = v.to_integral_value(rounding=decimal.ROUND_HALF_EVEN)
                if abs(v - near) < decimal.Decimal("1e-40"):
                    return as_poly(int(near))
            mode = {"ceil": decimal.ROUND_CEILING, "floor": decimal.ROUND_FLOOR, "rint": decimal.ROUND_HALF_EVEN, "trunc": decimal.ROUND_DOWN}[name]
            if c is not None:
                import math
                fl = c.numerator // c.denominator
                if name == "floor":
                    return as_poly(fl)
                if name == "ceil":
                    return as_poly(-((-c.numerator) // c.denominator))
                if name == "trunc":
                    return as_poly(fl if c >= 0 else -((-c.numerator) // c.denominator))
                return as_poly(round(c))
            return as_poly(int(v.to_integral_value(rounding=mode)))
        return _unary(name, p, integer=True, nonneg=is_nonneg(p))

    return f


def fn_log(p):
    return _unary("log", p)


def fn_pow(p, q):
    """p**q with symbolic exponent."""
    c = q.const()
    if c is not None:
        return ppow(p, c)
    if p.const() == -1 and is_int(q):
        # (-1)**(even) etc.
        h = floordiv(q, as_poly(2))
        r = q - h * 2
        if r.const() is not None:
            return P1 if r.const() == 0 else -P1
        return as_poly(mk_atom("pow", (p, q), integer=True))
    return as_poly(mk_atom("pow", (p, q), nonneg=is_nonneg(p), pos=is_pos(p)))


def fn_ite(c, a, b):
    if a == b:
        return a
    k = c.const()
    if k is not None:
        return a if k else b
    sc = c.single()
    if sc is not None and sc[1] == 1 and len(sc[0]) == 1:
        at = sc[0][0][0]
        if at.tag == "ind" and at.args[0] == "eq" and mk_ind("eq", a - b) == c:
            return b
    else:
        nc = P1 - c
        sn = nc.single()
        if sn is not None and sn[1] == 1 and len(sn[0]) == 1 and sn[0][0][0].tag == "ind":
            return fn_ite(nc, b, a)
    real = is_real(a) and is_real(b)
    return as_poly(
        mk_atom("ite", (c, a, b), real=real, nonneg=real and is_nonneg(a) and is_nonneg(b),
                pos=real and is_pos(a) and is_pos(b), integer=is_int(a) and is_int(b))
    )


def fn_take(tab, idx):
    """Lookup in a constant table."""
    c = idx.const()
    if c is not None and c.denominator == 1 and -len(tab) <= c < len(tab):
        return tab[int(c)]
    return as_poly(mk_atom("take", (tab, idx), real=all(is_real(t) for t in tab), nonneg=all(is_nonneg(t) for t in tab), integer=all(is_int(t) for t in tab)))


def fn_jacobi(n, a, b, x):
    """Jacobi polynomial; expanded when the degree and parameters are constants."""
    nc, ac, bc = n.const(), a.const(), b.const()
    if nc is not None and ac is not None and bc is not None and nc.denominator == 1 and 0 <= nc <= 40 and is_nonneg(a):
        N = int(nc)

        def binom(top, k):
            r = F(1)
            for j in range(k):
                r = r * (top - j) / (j + 1)
            return r

        u = (x - 1) * F(1, 2)
        v = (x + 1) * F(1, 2)
        tot = ZERO
        for s in range(N + 1):
            tot = tot + ppow(u, N - s) * ppow(v, s) * as_poly(binom(nc + ac, s) * binom(nc + bc, N - s))
        return tot
    return as_poly(mk_atom("jacobi", (n, a, b, x)))


FN = {
    "take": fn_take,
    "jacobi": fn_jacobi,
    "ite": fn_ite,
    "sin": fn_sin,
    "cos": fn_cos,
    "tan": fn_tan,
    "arcsin": fn_arcsin,
    "arccos": fn_arccos,
    "arctan": fn_arctan,
    "arctan2": fn_arctan2,
    "angle": fn_angle,
    "abs": fn_abs,
    "real": fn_real,
    "imag": fn_imag,
    "max": fn_max,
    "min": fn_min,
    "ceil": fn_round("ceil"),
    "floor": fn_round("floor"),
    "rint": fn_round("rint"),
    "trunc": fn_round("trunc"),
    "log": fn_log,
    "pow": fn_pow,
    "floordiv": floordiv,
    "mod": mod,
}
ELEMENTWISE = set(FN) | {"ind", "P", "expb", "phase", "conj", "jacobi", "efn", "isfinite"}


# ---------------------------------------------------------------- indicators
def mk_ind(kind, *args):
    """0/1 indicator of a comparison.  kind: 'gt' (p>0), 'ge' (p>=0), 'eq' (p==0), 'b' opaque."""
    if kind in ("gt", "ge", "eq"):
        p = args[0]
        s = sign(p)
        c = p.const()
        if c is not None:
            if kind == "gt":
                return P1 if c > 0 else ZERO
            if kind == "ge":
                return P1 if c >= 0 else ZERO
            return P1 if c == 0 else ZERO
        if s == 1:
            return ZERO if kind == "eq" else P1
        if s == -1:
            return ZERO
        if kind == "ge" and nonneg_by_sign(p):
            return P1
        if kind == "gt" and nonneg_by_sign(-p):
            return ZERO
        lo, hi = index_bounds(p)
        if lo is not None and (sign(lo) == 1 or kind == "ge" and nonneg_by_sign(lo)):
            return ZERO if kind == "eq" else P1
        if hi is not None and (sign(hi) == -1 or kind == "gt" and nonneg_by_sign(-hi)):
            return ZERO
        p = norm_ineq(p)
        if kind == "eq" and _neg_lead(p):
            p = -p
        return as_poly(mk_atom("ind", (kind, p), nonneg=True, integer=True))
    return as_poly(mk_atom("ind", (kind,) + args, nonneg=True, integer=True))


def index_bounds(p):
    """Bounds of an expression that is linear in positions along axes, or (None, None)."""
    coef = {}
    rest = {}
    for m, c in p.m:
        hit = [(a, e) for a, e in m if atom_axes(a)]
        if not hit:
            rest[m] = c
            continue
        if len(hit) != 1 or hit[0][0].tag != "ix" or hit[0][1] != 1:
            return None, None
        a = hit[0][0]
        q = mk_poly({tuple(y for y in m if y[0] is not a): c})
        coef[a] = coef[a] + q if a in coef else q
    if not coef:
        return None, None
    lo = hi = mk_poly(rest)
    for a, q in coef.items():
        top = as_poly(a.args[0]) - 1
        s = sign(q)
        if s is None:
            return None, None
        if s > 0:
            hi = hi + q * top
        else:
            lo = lo + q * top
    return lo, hi


def norm_ineq(p):
    """Scale p by a positive factor to a canonical form: the purely scalar positive monomial
    (no axes) becomes +-1, else leading coefficient magnitude 1."""
    cand = [(m, c) for m, c in p.m if all(a.pos for a, e in m) and not any(atom_axes(a) for a, e in m)]
    if len(p.m) >= 2 and cand:
        # deterministic choice: constant first, otherwise smallest key
        cand.sort(key=lambda mc: (mc[0] != (), _mono_key(mc[0])))
        m, c = cand[0]
        inv = mk_poly({tuple((a, -e) for a, e in m): 1 / abs(c)})
        return p * inv
    c = abs(p.m[0][1])
    # strip positive scalar symbol factors common to all
    cont, prim = content(p)
    s = cont.single()
    if s is not None and all(a.pos for a, e in s[0]):
        return prim
    return p * as_poly(1 / c)


def ind_and(p, q):
    return p * q


def ind_or(p, q):
    return p + q - p * q


def ind_not(p):
    c = p.const()
    s = p.single()
    if s is not None and len(s[0]) == 1 and s[1] == 1 and s[0][0][0].tag == "ind":
        k, *args = s[0][0][0].args
        if k == "gt":
            return mk_ind("ge", -args[0])
        if k == "ge":
            return mk_ind("gt", -args[0])
    return P1 - p


def is_nan(p):
    """The value is NaN wherever it is defined."""
    for m, c in p.m:
        if not any(a.tag == "ind" for a, e in m) and any(a.tag == "nan" or a.tag == "abs" and is_nan(as_poly(a.args[0])) for a, e in m):
            return True
    return False


def cmp_ind(op, p, q):
    if is_nan(p) or is_nan(q):
        return P1 if op == "!=" else ZERO
    if op == "<":
        return mk_ind("gt", q - p)
    if op == "<=":
        return mk_ind("ge", q - p)
    if op == ">":
        return mk_ind("gt", p - q)
    if op == ">=":
        return mk_ind("ge", p - q)
    if op == "==":
        return mk_ind("eq", p - q)
    if op == "!=":
        return P1 - mk_ind("eq", p - q)
    raise ValueError(op)


# ---------------------------------------------------------------- FFT
def fft1(inv, ax, arg, r=ZERO):
    """1-D (inverse) FFT of value number `arg` along axis tag ax, then rolled by r.

    Linear; commutes over axes (sorted: outermost = smallest axis key); cancels with inverse.
    """
    k = ax.k
    out = ZERO
    for m, c in arg.m:
        outer = [(a, e) for a, e in m if k not in atom_axes(a)]
        inner = [(a, e) for a, e in m if k in atom_axes(a)]
        coef = mk_poly({tuple(outer): c})
        out = out + coef * _fft1_mono(inv, ax, tuple(inner), r)
    return out


def _fft1_mono(inv, ax, inner, r):
    k = ax.k
    if len(inner) == 1 and inner[0][1] == 1 and inner[0][0].tag == "fft":
        a = inner[0][0]
        ainv, aax, aarg, ar = a.args
        if aax.k == k:
            if ainv != inv and ar.is_zero():
                if r.is_zero():
                    return aarg
                return None_roll(aarg, ax, r)
        elif axkey(aax.k) < axkey(k):
            return fft1(ainv, aax, fft1(inv, ax, aarg, r), ar)
        else:
            # our axis is smaller -> we wrap, unless a matching transform is deeper
            if _contains_axis_fft(aarg, k):
                return fft1(ainv, aax, fft1(inv, ax, aarg, r), ar)
    arg = mk_poly({inner: ONE})
    return as_poly(mk_atom("fft", (inv, ax, arg, r), real=False))


def None_roll(p, ax, r):
    return as_poly(mk_atom("roll", (ax, r, p), real=is_real(p), nonneg=is_nonneg(p)))


def _contains_axis_fft(p, k):
    s = p.single()
    if s is None or len(s[0]) != 1:
        return False
    a = s[0][0][0]
    if a.tag != "fft":
        return False
    if a.args[1].k == k:
        return True
    return _contains_axis_fft(a.args[2], k)


# ---------------------------------------------------------------- reductions
def reduce_axis(op, p, k, n):
    """Reduction of p along axis k (from end), axis length n (poly).  Remaining axes further
    left than k are NOT renumbered here."""
    if k not in axes_of(p):
        if op == "sum":
            return p * n
        if op in ("mean", "max", "min", "any", "all", "median"):
            return p
        if op == "prod":
            return fn_pow(p, n)
    if op in ("sum", "mean"):
        # linear: pull out factors not varying along k
        out = ZERO
        for m, c in p.m:
            outer = tuple((a, e) for a, e in m if k not in atom_axes(a))
            inner = tuple((a, e) for a, e in m if k in atom_axes(a))
            coef = mk_poly({outer: c})
            if not inner:
                out = out + (coef * n if op == "sum" else coef)
                continue
            arg = mk_poly({inner: ONE})
            b = Ax(_max_bound(arg) + 1)
            arg2 = remap_axes(arg, {k: b.k})
            red = as_poly(mk_atom("red", ("sum", b, n, arg2), real=is_real(arg), nonneg=is_nonneg(arg)))
            out = out + coef * red * (P1 if op == "sum" else ppow(n, -1))
        return out
    b = Ax(_max_bound(p) + 1)
    arg2 = remap_axes(p, {k: b.k})
    return as_poly(mk_atom("red", (op, b, n, arg2), real=is_real(p), nonneg=is_nonneg(p)))


# ---------------------------------------------------------------- equality
def equal(p, q):
    """Equality modulo clearing of polynomial denominators."""
    if p == q:
        return True
    d = p - q
    for _ in range(12):
        if d.is_zero():
            return True
        neg = {}
        for m, _c in d.m:
            for a, e in m:
                if a.tag == "P" and e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            break
        a, e = sorted(neg.items(), key=lambda ae: ae[0].id)[0]
        mult = mk_poly({((a, -e),): ONE}) if e.denominator != 1 else ppow(a.args[0], -e)
        nd = ZERO
        for m, c in d.m:
            dd = dict(m)
            dd[a] = dd.get(a, 0) - e
            cc, k, ex = mono_norm(dd)
            t = mk_poly({k: c * cc})
            for b, n in ex:
                for _i in range(n):
                    t = pmul(t, b)
            nd = nd + t
        d = nd
    return d.is_zero()


# ---------------------------------------------------------------- printing
def atom_str(a, depth=0):
    if depth > 6:
        return "..."
    t = a.tag
    if t == "sym":
        return str(a.args[0])
    if t == "in":
        r = ",".join(f"{x!r}{'+' + poly_str(rr, depth + 1) if not rr.is_zero() else ''}" for x, rr in a.args[1])
        return f"{a.args[0]}[{r}]"
    if t in ("I", "pi"):
        return t
    if t == "P":
        return "(" + poly_str(a.args[0], depth + 1) + ")"

    def s(x):
        if isinstance(x, Poly):
            return poly_str(x, depth + 1)
        if isinstance(x, tuple):
            return "(" + ",".join(s(y) for y in x) + ")"
        return repr(x) if not isinstance(x, str) else x

    return f"{t}({', '.join(s(x) for x in a.args)})"


def poly_str(p, depth=0):
    if not p.m:
        return "0"
    out = []
    for m, c in p.m[:12]:
        f = []
        if c != 1 or not m:
            f.append(str(c))
        for a, e in m:
            f.append(atom_str(a, depth) + ("" if e == 1 else f"^{e}"))
        out.append("*".join(f))
    s = " + ".join(out)
    if len(p.m) > 12:
        s += " + ..."
    return s if len(s) < 2000 else s[:2000] + "..."
