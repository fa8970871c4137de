"""Shared helpers of the property checks: scenarios, value comparison, reference files."""
import itertools
import time

import numpy as np

from . import evalterm as E
from .harness import *
from .harness import describe_exc
from .interp import fmt_loc
from .npmodel import unstack
from .poly import P1, ZERO

SPEC = os.path.join(HERE, "otfcheck", "spec")

PHYS = [
    dict(wl=0.6013, na=0.9017, ni=1.3303, res=0.1327, zres=0.2017),
    dict(wl=0.5231, na=1.2013, ni=1.3307, res=0.0911, zres=0.1113),
    dict(wl=0.7019, na=0.6023, ni=1.0031, res=0.2511, zres=0.3013),
    dict(wl=0.6013, na=0.9017, ni=1.5171, res=0.1513, zres=0.1513),
]
# second values of parameters are close to the first ones, so that they stay admissible together
VALS = dict(wl2=[0.5911, 0.5391, 0.6811, 0.5917], na2=[0.8713, 1.1713, 0.5713, 0.8819], ni2=[1.3503, 1.3513, 1.0231, 1.5301],
            res2=[0.1213, 0.0871, 0.2313, 0.1413], zres2=[0.1817, 0.1217, 0.2711, 0.1311],
            px=[0.1327, 0.0911, 0.2511, 0.1513], wle=[0.5513, 0.4881, 0.6411, 0.5611], nae=[0.8117, 1.0113, 0.5113, 0.7013],
            ph=[1.1, 2.3, 0.9, 0.17, 0.21], w=[0.11, 0.23, 0.17, 0.31], th1=[1.05, 0.71, 2.1, 0.33], th2=[2.09, 1.41, 0.37, 1.13],
            ph2=[0.8, 1.7, 1.3, 0.23, 0.31], wle2=[0.5713, 0.5017, 0.6613, 0.5417], nae2=[0.7717, 0.9713, 0.4713, 0.6613],
            w2=[0.19, 0.13, 0.29, 0.21], th3=[0.41, 1.9, 0.77, 1.57], th4=[1.3, 0.2, 2.5, 0.9])
LARGE = {0: [40, 36], 1: [39, 41], None: [39, 40]}
SIZES = {0: [8, 10, 12, 8], 1: [9, 11, 13, 9], None: [9, 10, 11, 12]}
ZSIZES = {0: [6, 8, 10, 12], 1: [7, 9, 11, 13], None: [7, 8, 12, 10]}  # numbers of planes differ from numbers of pixels


def spec(lab, file, name):
    """Function `name` of reference file `file`, loaded into the same abstract machine."""
    mod = "otfcheck_spec." + file
    I = lab.I
    ev, keys, seen = list(I.events), set(I._evkeys), set(I.funcs_seen)
    m = I.load_module(mod, os.path.join(SPEC, file + ".py"))
    return I.st.heap[m.env].vars[name]


def refcall(lab, file, name, *a, **k):
    """Interpret a reference function; events and exceptions of it are not the program's."""
    I = lab.I
    f = spec(lab, file, name)
    ev, keys, seen, log = list(I.events), set(I._evkeys), set(I.funcs_seen), list(getattr(I, "extlog", []))
    n0 = len(I.sinks[0])
    try:
        return lab.run(lambda: I.call(f, list(a), k))
    finally:
        I.events[:] = ev
        I._evkeys = keys
        I.funcs_seen = seen
        I.extlog = log
        del I.sinks[0][n0:]


def all_syms(*terms):
    s = {}
    for t in terms:
        for a in P.atoms_deep(P.as_poly(t)):
            if a.tag == "sym":
                s[a.args[0]] = a
    return s


FOUND = {}
BUDGET = [25.0]  # seconds of witness search per process


class Samples:
    """Sample points for random interpretation of value numbers."""

    def __init__(self, vals=None, sizes=None, n=4, grid=None):
        self.vals, self.sizes, self.n, self.grid = dict(VALS, **(vals or {})), sizes or {}, n, grid or SIZES

    def model(self, i, path=(), over=None, pattern=None):
        """Model number i, with symbols overridden; None if the path condition excludes the point."""
        d = dict(PHYS[i % len(PHYS)])
        for k, v in self.vals.items():
            d[k] = v[i % len(v)] if isinstance(v, (list, tuple)) else v
        if over:
            d.update(over)
        m = E.Model(d, shapes=dict(INPUT_SHAPES), seed=i)
        m.pattern = pattern
        base = m.sym

        def sym(a, base=base, m=m):
            n = a.args[0]
            if n not in m.syms and a.integer and n not in self.vals:
                lb = int(a.lb) if a.lb is not None else 0
                grid = ZSIZES if self.grid is SIZES and n.lstrip("n")[:1] == "z" else self.grid
                opts = self.sizes.get(n, grid[a.par])
                v = opts[i % len(opts)]
                if n not in self.sizes and n[-1] in "12":
                    v += 2 * int(n[-1])
                if lb > 3 and v < lb:
                    v = lb + (1 if a.par is not None and lb % 2 != a.par else 0)
                if lb >= 4:
                    m.syms[n] = v
                    return v
            return base(a)

        m.sym = sym
        m.index, m.over = i, over
        return m if holds(m, path) else None

    # ---- sample points on the far side of a condition
    def find(self, path, want=(), count=1):
        """Models satisfying path and want, searched by varying one or two symbols of the conditions."""
        key = (tuple((P.as_poly(c).id, bool(t)) for c, t in list(path) + list(want)), id(self.grid), repr(sorted(self.sizes.items())), count)
        r = FOUND.get(key)
        if r is None:
            r = []
            if BUDGET[0] > 0:
                t0 = time.time()
                r = self._find(path, want, count, t0 + min(2.5, BUDGET[0]))
                BUDGET[0] -= time.time() - t0
            r = FOUND[key] = [(m.index, m.over) for m in r]
        return [self.model(i, (), o) for i, o in r]

    def _find(self, path, want, count, end):
        conds = list(path) + list(want)
        out = []
        for i in range(4):
            m = self.model(i, conds)
            if m is not None and admissible(m.syms):
                out.append(m)
                if len(out) >= count:
                    return out
        syms = all_syms(*[c for c, t in conds])
        if not syms:
            return out
        heavy = any(a.tag in ("in", "fft") for c, t in conds for a in P.atoms_deep(P.as_poly(c)))
        for i in range(2):
            base = self.model(i)
            ev = {}
            for n, a in syms.items():
                try:
                    ev[n] = base.sym(a)
                except Exception:
                    return out
            cand = {n: candidates(a, ev[n]) for n, a in syms.items()}
            if heavy:
                cand = {n: [v for v in c if not isinstance(v, int) or abs(v) <= 33] for n, c in cand.items()}
            for n in syms:
                if time.time() > end:
                    return out
                for v in cand[n] + self.roots(i, conds, n, syms[n], cand[n], {}):
                    over = repair(base.syms, {n: v})
                    if over is not None:
                        m = self.model(i, conds, over)
                        if m is not None:
                            out.append(m)
                            if len(out) >= count:
                                return out
            if out:
                return out
        names = list(syms)
        if len(names) > 6:
            return out
        for a, b in itertools.permutations(names, 2):
            for v in cand[a][::3]:
                if time.time() > end:
                    return out
                for w in self.roots(i, conds, b, syms[b], cand[b], {a: v}) + cand[b][::4]:
                    over = repair(base.syms, {a: v, b: w})
                    if over is not None:
                        m = self.model(i, conds, over)
                        if m is not None:
                            out.append(m)
                            if len(out) >= count:
                                return out
        return out

    def roots(self, i, conds, n, a, cand, over):
        """Values of symbol n around the points where a comparison in conds changes sides or a compared distance vanishes."""
        if a.integer:
            return []
        out = []
        for c, t in conds:
            ats = [at for at in P.atoms_deep(P.as_poly(c)) if at.tag == "abs" or at.tag == "ind" and at.args[0] in ("eq", "gt", "ge")]
            e = [at.args[0] for at in ats if at.tag == "abs"] + [at.args[1] for at in ats if at.tag == "ind"]
            xs = set(cand)
            for at in [p for p in e if isinstance(p, P.Poly) and not P.axes_of(p) and n in all_syms(p)][:4]:
                def f(x):
                    try:
                        with np.errstate(all="ignore"):
                            m = self.model(i, (), over)
                            m.syms[n] = np.asarray(x)
                            return m.swept(at, len(x))
                    except Exception:
                        return np.full(len(x), np.nan)

                x = np.array(sorted(xs))
                y, new = f(x), []
                for j in range(len(x) - 1):
                    if y[j] != y[j] or y[j + 1] != y[j + 1] or (y[j] > 0) == (y[j + 1] > 0):
                        continue
                    lo, hi, up = x[j], x[j + 1], y[j] > 0
                    for _ in range(9):
                        g = np.linspace(lo, hi, 66)
                        fg = (f(g) > 0) != up
                        fg[-1] = True
                        q = int(np.argmax(fg))
                        if q == 0:
                            break
                        lo, hi = g[q - 1], g[q]
                    new += [float(v) for v in (lo, hi, lo * (1 - 1e-4), hi * (1 + 1e-4))]
                xs |= set(new)
                out = new + out
        return out

    def cover(self, path, terms, limit=10):
        """Extra models that take the side of each scalar condition in terms which the plain samples miss."""
        conds = []
        for t in terms:
            for a in P.atoms_deep(P.as_poly(t)):
                if a.tag == "ind" and not P.atom_axes(a) and a.args[0] in ("gt", "ge", "eq") and a not in conds and not has_axes(a):
                    conds.append(a)
        out = []
        if not conds or len(conds) > 40:
            return out
        base = [m for m in (self.model(i, path) for i in range(self.n)) if m is not None]
        large = Samples(self.vals, self.sizes, self.n, LARGE)
        for a in sorted(conds, key=lambda a: a.id)[:limit]:
            c = P.as_poly(a)
            got = set()
            for m in base:
                try:
                    got.add(bool(abs(m.scalar(c)) > 0.5))
                except Exception:
                    pass
            for t in {True, False} - got:
                out += [(m, f"{P.poly_str(c)[:200]} is {t}") for m in self.find(path, [(c, t)], count=2) + large.find(path, [(c, t)], count=4)]
        return out

    def edges(self, path, terms, limit=4):
        """Models in which an elementwise comparison in terms is about to change for one of its elements, from either side."""
        per = []
        for t in terms:
            per.append({a for a in P.atoms_deep(P.as_poly(t)) if a.tag == "ind" and a.args[0] in ("gt", "ge") and P.axes_of(a.args[1])})
        both = set.intersection(*per) if len(per) > 1 else set()
        conds = sorted(set.union(*per) - both, key=lambda a: a.id) + sorted(both, key=lambda a: a.id)
        out = []
        # limits that one side includes and the other does not: look at many elements
        deep = len(per) > 1 and len({tuple(sorted({a.args[0] for a in p - both})) for p in per}) > 1
        for a in conds[:limit]:
            key = (a.id, deep, tuple((P.as_poly(c).id, bool(t)) for c, t in path), id(self.grid), repr(sorted(self.sizes.items())))
            if key not in EDGES:
                t0 = time.time()
                EDGES[key] = self._edges(path, a.args[1], t0 + 1.0, deep) if BUDGET[0] > 0 else []
                for i in range(1, self.n if deep and BUDGET[0] > 0 else 0):
                    EDGES[key] += [r for r in self._edges(path, a.args[1], t0 + 3.0, deep, i) if r not in EDGES[key]]
                BUDGET[0] -= time.time() - t0
            for i, over in EDGES[key]:
                over = dict(over)
                tie = over.pop("=", None)
                m = self.model(i, path, over)
                if m is not None:
                    if tie:
                        m.tie, m.memo, m.arrays = tie, {}, {}
                    out.append((m, f"an element is {'exactly at' if tie else 'close to'} the limit of a comparison"))
        return out

    def extra(self, path, terms):
        """Sample points besides the plain ones: data with zeros, edges of elementwise comparisons, missed sides of scalar conditions."""
        sp = self.model(0, path, pattern="sparse")
        r = [(sp, "data have zeros")] if sp is not None and any(a.tag == "in" for t in terms for a in P.atoms_deep(P.as_poly(t))) else []
        return r + self.edges(path, terms) + self.cover(path, terms)

    def _edges(self, path, p, end, deep=False, start=0):
        i = next((i for i in range(start, self.n) if self.model(i, path) is not None), None)
        syms = [n for n, a in all_syms(p).items() if not a.integer]
        if i is None or not syms:
            return []
        base = self.model(i, path)

        def f(n, x):
            if time.time() > end:
                raise E.NoEval("time")
            m = self.model(i, (), {n: x})
            env = {k: m.size_of(p, k, {}) for k in P.axes_of(p)}
            with np.errstate(all="ignore"):
                return np.asarray(np.real(m.ev(p, env)[0]), dtype=float).ravel()

        for n in sorted(syms, key=lambda n: (n.rstrip("0123456789") not in ("wl", "na"), n)):
            try:
                a = all_syms(p)[n]
                v = float(np.real(base.sym(a)))
                xs = [v * (1 + 0.01 * j) for j in sorted([*range(-12, 13), -40, -33, -27, -22, -17, 17, 22, 28, 35, 45], key=abs)]
                y0 = f(n, v)

                def limit(q, x):
                    lo, hi, up = v, x, y0[q] > 0
                    for _ in range(40):
                        mid = (lo + hi) / 2
                        if (f(n, mid)[q] > 0) == up:
                            lo = mid
                        else:
                            hi = mid
                    return lo

                for x in xs[1:]:
                    y = f(n, x)
                    if y.shape != y0.shape:
                        break
                    hit = np.flatnonzero((y > 0) != (y0 > 0))
                    if not hit.size:
                        continue
                    lo = limit(hit[0], x)
                    res = [(i, {n: w}) for w in (lo * (1 - 1e-6), lo * (1 + 1e-6)) if admissible({**base.syms, n: w})]
                    if not res:
                        continue
                    if deep:
                        for x2 in (v * 1.45, v * 0.6, v * 1.25, v * 0.75):
                            y2 = f(n, x2)
                            if admissible({**base.syms, n: x2}) and y2.shape == y0.shape:
                                h2 = np.flatnonzero((y2 > 0) != (y0 > 0))
                                if len(h2) > len(hit):
                                    hit, x = h2, x2
                    try:
                        _, first = np.unique(np.round(y0[hit], 9), return_index=True)
                        more = set(hit[first][:24] if deep else [hit[len(hit) // 2], hit[-1]]) - {hit[0]}
                        for w in [lo] + [limit(q, x) for q in sorted(more)]:
                            if admissible({**base.syms, n: w}):
                                res.append((i, {n: w, "=": 1e-9}))
                    except E.NoEval:
                        pass
                    return res
            except Exception:
                return []
        return []


EDGES = {}


def has_axes(a):
    return any(x.tag in ("lam", "in", "red", "fft") for x in P.atoms_deep(P.as_poly(a)))


def holds(m, path):
    for c, t in path:
        try:
            with np.errstate(all="ignore"):
                v = m.scalar(c)
        except Exception:
            continue
        if bool(abs(v) > 0.5) != bool(t):
            return False
    return True


ISIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 24, 25, 27, 31, 32, 33, 40, 48, 49, 50, 51, 63, 64, 65, 81, 96, 99, 100, 101, 120, 121,
          127, 128, 129, 150, 151, 200, 201, 255, 256, 257, 300, 301, 400, 500, 501, 511, 512, 513, 600, 700, 800, 999, 1000, 1001, 1023, 1024, 1025, 2001, 2002, 2048, 4097, 4098]


def candidates(a, v):
    if a.integer:
        lb = int(a.lb) if a.lb is not None else 0 if a.nonneg or a.pos else -20
        r = [x for x in ISIZES + ([0] + [-x for x in ISIZES[:20]] if lb < 0 else [0]) if x >= lb]
        return [x for x in r if a.par is None or x % 2 == a.par]
    f = [0.999, 1.001, 0.97, 1.03, 0.9, 1.1, 0.8, 1.25, 0.7, 1.4, 0.5, 2, 0.3, 3, 0.1, 10, 0.03, 30, 0.01, 100, 1e-3, 1e3, 1e-4, 1e4, 1e-6, 1e6, 1e-9, 1e9]
    r = [v * x for x in f]
    if not (a.pos or a.nonneg):
        r += [-x for x in r] + [0.0]
    return r


def admissible(d):
    """Parameters a user may combine: the numerical aperture stays below the index, grids sample the passband, sizes are sensible."""
    def group(p):
        return [v for k, v in d.items() if k.rstrip("0123456789") == p]

    wl, na, ni = group("wl"), group("na"), group("ni")
    for r in group("res") + group("px"):
        if not r > 0 or any(r > 0.49 * w / n for w in wl for n in na or [1e-9]) or not na and any(r > 0.3 * w for w in wl):
            return False
    for r in group("zres") + group("px") + group("res"):
        if not r > 0 or any(r > 0.49 * w / n for w in wl for n in ni or [2.0]):
            return False
    if any(n > 0.98 * i for n in na + group("nae") for i in ni or [1.0]):
        return False
    if any(i < 1 or i > 4.5 for i in ni) or any(n < 0.02 for n in na):
        return False
    if any(v < 4 for v in group("size")) or any(v < 1 for v in group("zsize")):
        return False
    return True


def repair(d, over):
    """Overrides that include `over` and change the pitches (then the apertures) so that the point is admissible; None if impossible."""
    if admissible({**d, **over}):
        return over
    full = {**d, **over}

    def names(*ps):
        return [k for k in full if k.rstrip("0123456789") in ps]

    wl, na, ni = ([full[k] for k in names(p)] for p in ("wl", "na", "ni"))
    o = dict(over)
    for k in names("na", "nae"):
        if ni and full[k] > 0.98 * min(ni) and k not in over:
            o[k] = 0.9 * min(ni) * (1 - 0.01 * len(k))
    na = [o.get(k, full[k]) for k in names("na")]
    if wl:
        lim = 0.45 * min(wl) / max(ni + na + [1.0])
        p = [k for k in names("res", "zres", "px") if k not in over]
        top = max([full[k] for k in p], default=0)
        if top > lim:
            for k in p:
                o[k] = full[k] * lim / top
    return o if admissible({**full, **o}) else None


def same_terms(lab, t1, t2, shape, samples=None, path=None, rtol=1e-7, quick=False):
    """'ok' (equal value numbers), 'ok~' (equal under random interpretation),
    ('differ', detail) or ('unknown', why)."""
    if P.equal(t1, t2):
        return "ok"
    samples = samples or Samples()
    path = lab.I.st.path if path is None else path
    hits, why = 0, "no sample satisfies the path condition"

    def one(m, extra=""):
        nonlocal hits, why
        r = E.compare(m, t1, t2, shape, rtol=rtol)
        if r[0] == "nonfinite" and m.tie is not None:
            r = ("unknown", "undefined at the limit of a comparison")
        m.memo, m.arrays, m.held = {}, {}, 0
        if r == "equal":
            hits += 1
        elif r[0] in ("differ", "nonfinite"):
            return ("differ", f"value numbers differ{extra}; witness at index {r[1]}: {fmtv(r[2])} instead of {fmtv(r[3])}")
        else:
            why = r[1]

    for i in range(4 * samples.n):
        m = samples.model(i, path)
        if m is not None:
            r = one(m)
            if r:
                return r
            if hits >= samples.n:
                break
    if not hits:
        # equality that holds everywhere holds in particular under the path condition
        r = None
        for m in (samples.model(i) for i in range(samples.n)):
            r = one(m)
            if r:
                break
        if r:
            hits = 0
            if quick:
                return ("differ", r[1], "everywhere")
            for m in samples.find(path, count=2):
                if too_big(m, shape):
                    continue
                r = one(m)
                if r:
                    return r
    if quick:
        return "ok~" if hits else ("unknown", why)
    for m, extra in samples.extra(path, (t1, t2)):
        if too_big(m, shape):
            continue
        r = one(m, " when " + extra)
        if r:
            return r
    if hits:
        return "ok~"
    return ("unknown", why)


_RS = {}


def raises_somewhere(out):
    """Conditional exceptions of a call that completes otherwise: those with an admissible witness."""
    res = []
    for e, st in getattr(out, "excs", ()):
        conds = [(c, t) for c, t in st.path if (c, t) not in out.path0]
        if os.environ.get("OTFCHECK_EXC"):
            print("EXC", describe_exc(e), [(P.poly_str(P.as_poly(c))[:200], t) for c, t in conds])
        if any(a.tag == "ind" and a.args[0] == "b" and len(a.args) == 2 or a.tag == "phi" for c, t in conds for a in P.atoms_deep(P.as_poly(c))):
            continue
        key = tuple((P.as_poly(c).id, t) for c, t in st.path)
        if key not in _RS:
            _RS[key] = any(evaluable(m, conds) for m in Samples().find(st.path))
        if _RS[key]:
            res.append((f"raises for admissible input: {describe_exc(e)} when " + ", ".join(f"{P.poly_str(P.as_poly(c))[:160]} is {t}" for c, t in conds[:4]), True))
    return res


def evaluable(m, conds):
    try:
        for c, t in conds:
            m.scalar(c)
    except Exception:
        return False
    return True


def too_big(m, shape, limit=3e6):
    try:
        n = 1
        for s in shape:
            n *= m.integer(s)
    except Exception:
        return False
    return n > limit or any(v > 5000 for v in m.syms.values() if isinstance(v, int))


def fmtv(x):
    return f"{complex(x):.6g}" if np.iscomplexobj(np.asarray(x)) else f"{float(x):.6g}"


def shp(s):
    return "(" + ", ".join(P.poly_str(x) for x in s) + ")"


def compare(rep, rule, construct, lab, got, want, samples=None, kind=True, detail=""):
    """Obligation: abstract value `got` equals reference value `want` (any array-likes)."""
    st, why = relate(lab, got, want, samples)
    if st == "ok":
        rep.ok(rule, construct, why)
        return True
    if st == "bad":
        rep.bad(rule, construct, f"{why} {detail}")
        return False
    rep.undecided(rule, construct, why)
    return None


def unknown_atom(I, c):
    """An elementary condition that takes part in the composite condition c and is not decided yet."""
    c = P.as_poly(c)
    ats = {a for m, _ in c.m for a, e in m if a.tag == "ind"}
    for a in sorted(ats, key=lambda a: a.id):
        if I.known(P.as_poly(a)) is None:
            return P.as_poly(a)
    return c


def under_facts(I, t):
    """The term with the elementary scalar conditions decided by the current path replaced by their truth value."""
    mp = {}
    for a in P.atoms_deep(P.as_poly(t)):
        if a.tag == "ind" and a.args[0] in ("gt", "ge", "eq") and not P.atom_axes(a):
            k = I.known(P.as_poly(a))
            if k is not None:
                mp[a] = P1 if k else ZERO
    if not mp:
        return t
    try:
        return P.subst(P.as_poly(t), mp)
    except Exception:
        return t


def same_condition(lab, c, d, samples):
    """Two comparisons of the same kind whose compared quantities are equal under random interpretation."""
    a, b = (P.as_poly(x).single() for x in (c, d))
    if a is None or b is None or a[1] != 1 or b[1] != 1 or len(a[0]) != 1 or len(b[0]) != 1:
        return False
    a, b = a[0][0][0], b[0][0][0]
    if a.tag != "ind" or b.tag != "ind" or a.args[0] != b.args[0] or a.args[0] not in ("gt", "ge", "eq"):
        return False
    return same_terms(lab, a.args[1], b.args[1], (), samples, quick=True) == "ok~"


def relate(lab, got, want, samples=None):
    """('ok' | 'bad' | 'unknown', explanation); conditional values are compared case by case."""
    I = lab.I
    s0, cases = I.st, []
    try:
        split_cases(lab, got, want, samples, cases, 0, twins(lab, got, want, samples))
        if len(cases) == 1:
            I.st = cases[0][0]
            return relate_case(lab, cases[0][1], cases[0][2], samples)
        todo, out = [], []
        for st, g, w in cases:  # plain sample points first
            I.st = st
            r = relate_case(lab, g, w, samples, quick=True)
            if r[0] == "bad":
                return r
            if r != ("ok", "ok"):
                todo.append((st, g, w))
            else:
                out.append(r)
        for st, g, w in todo:
            I.st = st
            r = relate_case(lab, g, w, samples)
            if r[0] == "bad":
                return r
            out.append(r)
        for r in out:
            if r[0] == "unknown":
                return r
        return ("ok", " / ".join(sorted({r[1] for r in out})))
    finally:
        I.st = s0


def conditions(lab, v, out):
    """The elementary comparisons on which a conditional value depends."""
    v = lab.I.res(v)
    if isinstance(v, Cond):
        for m, _ in P.as_poly(v.c).m:
            for a, e in m:
                if a.tag == "ind" and a.args[0] in ("gt", "ge", "eq"):
                    out.setdefault(a.id, P.as_poly(a))
        conditions(lab, v.a, out)
        conditions(lab, v.b, out)
    return out


def twins(lab, got, want, samples):
    """Comparisons of one value -> those of the other which are written differently but compare equal quantities."""
    a, b = conditions(lab, got, {}), conditions(lab, want, {})
    r = {}
    if not a or not b or len(a) > 12 or len(b) > 12:
        return r
    left = [d for k, d in b.items() if k not in a]
    for k, c in a.items():
        if k in b:
            continue
        d = next((d for d in left if same_condition(lab, c, d, samples)), None)
        if d is not None:
            left.remove(d)
            r[k], r[d.single()[0][0][0].id] = d, c
    return r


def split_cases(lab, got, want, samples, out, depth=0, pairs={}):
    """Split conditional values into cases (state, got, want) of unconditional ones."""
    I = lab.I
    got, want = I.res(got), I.res(want)
    c = got.c if isinstance(got, Cond) else want.c if isinstance(want, Cond) else None
    if c is None or depth >= 12:
        out.append((I.st, got, want))
        return
    c = unknown_atom(I, c)
    s0, c2 = I.st, None
    if isinstance(got, Cond) and isinstance(want, Cond):
        # conditions written differently whose compared quantities agree are one case distinction
        d = unknown_atom(I, want.c)
        if not pairs and not P.equal(c, d) and same_condition(lab, c, d, samples):
            c2 = d
    if c2 is None and pairs:
        s = c.single()
        c2 = pairs.get(s[0][0][0].id) if s is not None and s[1] == 1 and len(s[0]) == 1 else None
    for t in (True, False):
        I.st = s0.assume(c, t)
        if c2 is not None:
            I.st = I.st.assume(c2, t)
        split_cases(lab, got, want, samples, out, depth + 1, pairs)
    I.st = s0


def relate_case(lab, got, want, samples=None, quick=False):
    I = lab.I
    a, b = lab.av(got), lab.av(want)
    if a is None or b is None or a.shape is None or b.shape is None:
        if got is None and want is None or isinstance(got, str) and isinstance(want, str) and got == want:
            return ("ok", "")
        return ("unknown", f"no abstract array: {describe_v(got)} / {describe_v(want)}")
    if len(a.shape) != len(b.shape) or any(not P.equal(x, y) for x, y in zip(a.shape, b.shape)):
        r = shapes_same(lab, a.shape, b.shape, samples)
        if r is not True:
            if r is None:
                return ("unknown", f"shape {shp(a.shape)} vs {shp(b.shape)}")
            return ("bad", f"shape is {shp(a.shape)}, expected {shp(b.shape)}")
    t1, t2 = a.term, b.term
    if not P.equal(t1, t2):
        t1, t2 = under_facts(I, t1), under_facts(I, t2)
    r = same_terms(lab, t1, t2, b.shape, samples, quick=quick)
    if r in ("ok", "ok~"):
        return ("ok", r)
    if quick and r[0] == "differ" and len(r) > 2:
        return ("unknown", r[1])
    return ("bad" if r[0] == "differ" else "unknown", r[1])


def shapes_same(lab, s1, s2, samples=None):
    """True / False / None (unknown)."""
    if len(s1) != len(s2):
        return False
    if all(P.equal(x, y) for x, y in zip(s1, s2)):
        return True
    samples = samples or Samples()
    n = 0
    for i in range(samples.n):
        m = samples.model(i, lab.I.st.path)
        if m is None:
            continue
        try:
            for x, y in zip(s1, s2):
                if m.integer(x) != m.integer(y):
                    return False
            n += 1
        except Exception:
            pass
    return True if n else None


def assume_ne(lab, a, b):
    """Restrict the machine to states in which the scalars a and b differ."""
    I = lab.I
    if isinstance(a, AV) and isinstance(b, AV) and a.shape == () and b.shape == ():
        c = P.cmp_ind("==", a.term, b.term)
        if I.known(c) is None:
            I.st = I.st.assume(c, False)


def describe_v(v):
    return repr(v)[:80]


# ------------------------------------------------------------------ scenarios
PAR = {"odd": 1, "even": 0}
VEC = ("none", "total", "x", "y", "z")
COND = ("none", "sine", "herschel")


def size_sym(name, par):
    return isz(name, 8 if par != "odd" else 9, PAR[par])


def psf_kw(zpar="odd", par="even", **kw):
    d = dict(wl=fl("wl", 1), na=fl("na"), ni=fl("ni"), res=fl("res", 1), size=size_sym("size", par),
             zres=fl("zres", 1), zsize=isz("zsize", 2 if zpar != "odd" else 3 if "dual" in kw else 1, PAR[zpar]))
    d.update(kw)
    return d


def make(lab, cls, kw):
    return lab.call(lab.g("otf", cls), **kw)


def micro_kw(par="even", **kw):
    d = dict(model="hanser", na=fl("na"), ni=fl("ni"), wl=fl("wl", 1), size=size_sym("size", par), pixel_size=fl("px", 1),
             oversample_factor=num(1), vec_corr="none", condition="none")
    d.update(kw)
    return d


def loc_of(lab, cls_mod, cls, attr):
    return f"pyotf/{cls_mod}.py:{cls}.{attr}"
