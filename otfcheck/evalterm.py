"""Random interpretation of value numbers.

Global value numbering by random interpretation (Gulwani & Necula): two *terms* that the
analysis could not prove equal syntactically are interpreted in a small random model.  Input
symbols get random numbers, input arrays random entries and sizes get small sizes; library
operations that stay opaque to the analysis are interpreted by fixed stand-in functions of
their arguments.  Distinct values prove that the two terms are not the same function of the
inputs.  Nothing of the analysed program is run: only terms built by the analysis are valued.
"""
import math
import zlib
from fractions import Fraction as F

import numpy as np

from . import poly as P
from .poly import Poly, Atom, Ax


class NoEval(Exception):
    pass


def _seed(*xs):
    return zlib.crc32(repr(xs).encode())


class Model:
    """Assignment of values to the free symbols of terms."""

    def __init__(self, syms=None, arrays=None, shapes=None, seed=0, infos=None):
        self.syms = dict(syms or {})
        self.arrays = dict(arrays or {})
        self.shapes = dict(shapes or {})  # input array name -> sizes (Polys or ints), in axis order
        self.seed = seed
        self.memo = {}
        self.held = 0  # bytes of memoised arrays
        self.budget = 0.8e9
        self.fixed = {}  # indicator poly id -> bool
        self.tie = None  # compared quantities below this count as equal
        self.pattern = None  # "sparse": input arrays have zeros, blank leading planes and repeated values

    # ---- symbols
    def sym(self, a):
        n = a.args[0]
        v = self.syms.get(n)
        if v is None:
            if n.startswith(("?", "loop")):
                raise NoEval("value the analysis does not know: " + n)
            r = np.random.default_rng(_seed("sym", n, self.seed))
            if a.integer:
                lb = int(a.lb) if a.lb is not None else (1 if a.pos else 0 if a.nonneg else -3)
                v = lb + int(r.integers(0, 3))
                if a.par is not None and v % 2 != a.par:
                    v += 1
            else:
                v = float(r.uniform(0.35, 1.1))
                if a.lb is not None:
                    v += float(a.lb)
                if not (a.pos or a.nonneg or a.lb is not None) and r.random() < 0.4:
                    v = -v
                if not a.real:
                    v = complex(v, float(r.uniform(-1, 1)))
            self.syms[n] = v
        return v

    def arr(self, a, sizes):
        n = a.args[0]
        key = (n, tuple(sizes))
        v = self.arrays.get(key)
        if v is None:
            v = self.arrays.get(n)
            if v is not None:
                v = np.asarray(v)
                if v.shape != tuple(sizes):
                    raise NoEval(f"shape of input {n}: {v.shape} vs {sizes}")
            else:
                r = np.random.default_rng(_seed("arr", n, self.seed))
                if a.integer:
                    v = r.integers(0 if a.nonneg else -4, 9, size=sizes).astype(float)
                else:
                    v = r.uniform(0.1 if a.nonneg or a.pos else -1, 1, size=sizes)
                    if not a.real:
                        v = v + 1j * r.uniform(-1, 1, size=sizes)
                if self.pattern == "sparse" and not a.pos and v.size > 1:
                    v = np.where(r.random(size=sizes) < 0.6, 0, np.where(r.random(size=sizes) < 0.3, v.flat[0], v))
                    if v.ndim < 3:
                        v.flat[-1] = 1  # the rim of a unit disk
                    if v.ndim == 3 and len(v) > 1:
                        v[0] = 0
            self.arrays[key] = v
        return v

    # ---- evaluation: value = ndarray whose dimensions are the free axes, sorted by axkey
    def scalar(self, p):
        v = self.ev(P.as_poly(p), {})
        if v[1]:
            raise NoEval("not a scalar")
        return v[0][()]

    def swept(self, p, n):
        """Values of a scalar term for the values of the one symbol that is bound to an array of length n."""
        v = self.ev(P.as_poly(p), {})
        if v[1] not in ((), ("~sweep",)):
            raise NoEval("not a scalar")
        return np.broadcast_to(np.real(v[0]), (n,)).astype(float)

    def integer(self, p):
        v = self.scalar(p)
        if abs(v - round(v.real)) > 1e-9:
            raise NoEval(f"not an integer: {v}")
        return int(round(v.real))

    def array(self, term, shape):
        """Full ndarray of `term` on a concrete shape (tuple of ints or polys)."""
        shape = tuple(self.integer(s) for s in shape)
        nd = len(shape)
        env = {-j: shape[-j] for j in range(1, nd + 1)}
        v, ks = self.ev(term, env)
        extra = [k for k in ks if not (isinstance(k, int) and -nd <= k < 0)]
        if extra:
            raise NoEval(f"free axes {extra}")
        # ks sorted ascending: -nd..-1 order
        idx = tuple(slice(None) if -nd + i in ks else None for i in range(nd))
        return np.broadcast_to(v[idx], shape)

    def ev(self, p, env):
        ax = P.axes_of(p)
        key = (p.id, tuple(sorted(((k, env.get(k)) for k in ax), key=lambda kv: P.axkey(kv[0]))))
        r = self.memo.get(key)
        if r is None:
            r = self._ev(p, env)
            self.keep(r)
            self.memo[key] = r
        elif isinstance(r, NoEval):
            raise r
        return r

    def _ev(self, p, env):
        fx = self.fixed.get(p.id)
        if fx is not None:
            return np.asarray(float(fx)), ()
        tot = None
        for m, c in p.m:
            t = (np.asarray(float(c)), ())
            zero = None
            for a, e in m:
                v = self.atom(a, env)
                if a.tag == "ind":
                    z = (v[0] == 0, v[1])
                    zero = z if zero is None else bop(np.logical_or, zero, z)
                t = bop(np.multiply, t, power(v, e, a))
            if zero is not None:
                t = bop3(zero, t)
            tot = t if tot is None else bop(np.add, tot, t)
        return tot if tot is not None else (np.asarray(0.0), ())

    def keep(self, r):
        n = getattr(r[0], "nbytes", 0)
        self.held += n
        if self.held > self.budget or n > self.budget / 4:
            raise NoEval("sample point too large")

    def atom(self, a, env):
        ax = P.atom_axes(a)
        key = ("a", a.id, tuple(sorted(((k, env.get(k)) for k in ax), key=lambda kv: P.axkey(kv[0]))))
        r = self.memo.get(key)
        if r is None:
            with np.errstate(all="ignore"):
                r = self._atom(a, env)
            if a.real and np.iscomplexobj(r[0]):
                r = (r[0].real, r[1])
            self.keep(r)
            self.memo[key] = r
        return r

    def size_of(self, p, k, env):
        """Length of axis k as recorded inside term p."""
        if k in env and env[k] is not None:
            return env[k]
        s = self._find(p, k, set())
        if s is None:
            raise NoEval(f"size of axis {k}")
        return s

    def _find(self, p, k, seen):
        if k not in P.axes_of(p) or p.id in seen:
            return None
        seen.add(p.id)
        for m, _ in p.m:
            for a, e in m:
                if k not in P.atom_axes(a):
                    continue
                t = a.tag
                if t in ("ix", "fftfreq") and a.args[1].k == k:
                    return self.integer(a.args[0])
                if t == "in":
                    for j, (x, r) in enumerate(a.args[1]):
                        if x.k == k:
                            sh = self.shapes.get(a.args[0])
                            if sh is not None:
                                return self.integer(sh[j])
                    continue
                if t == "sl" and a.args[0].k == k:
                    return self.integer(a.args[4])
                if t == "place" and a.args[0].k == k:
                    return self.integer(a.args[3])
                if t == "stack" and a.args[0].k == k:
                    return len(a.args) - 1
                if t == "bins":
                    if a.args[0].k == k:
                        return self.integer(a.args[3]) // self.integer(a.args[4])
                    if a.args[1].k == k:
                        return self.integer(a.args[4])
                if t == "opq":
                    if a.args[0] == "bincount" and a.args[1][0].k == k:
                        x, _ = self.outer_lam(a.args[2], {})
                        return int(np.max(np.rint(np.real(x)))) + 1
                    if a.args[0] == "stride" and a.args[1][0].k == k:
                        continue
                    if a.args[0] == "reshape":
                        for x, s in zip(a.args[1], a.args[2]):
                            if x.k == k:
                                return self.integer(s)
                    if a.args[0] == "flat" and len(a.args[1]) == 1:
                        n = 1
                        for s in a.args[4]:
                            n *= self.integer(s)
                        return n
                r = self._find_args(a.args, k, seen)
                if r is not None:
                    return r
        return None

    def _find_args(self, args, k, seen):
        for x in args:
            if isinstance(x, Poly):
                r = self._find(x, k, seen)
                if r is not None:
                    return r
            elif isinstance(x, tuple):
                r = self._find_args(x, k, seen)
                if r is not None:
                    return r
        return None

    def truth(self, p, env):
        return bop1(lambda x: (np.abs(x) > 0), self.ev(p, env))

    def lamval(self, p, sizes=None):
        """Array denoted by a lam term (or a constant)."""
        s = p.single()
        if s is not None and s[1] == 1 and len(s[0]) == 1 and s[0][0][0].tag == "lam" and s[0][0][1] == 1:
            a = s[0][0][0]
            return self._lam(a)
        if P.axes_of(p):
            raise NoEval("open argument")
        # polynomial in lam atoms should not occur; constants do
        for m, _ in p.m:
            for a, e in m:
                if a.tag == "lam":
                    raise NoEval("compound lam")
        return self.scalar(p), ()

    def _lam(self, a):
        bs, body, offs, sz = a.args[:4]
        env = {}
        for x, s in zip(bs, sz):
            n = self.integer(s)
            env[x.k] = n if n > 0 else self._find(body, x.k, set())
            if env[x.k] is None:
                raise NoEval("lam size")
        v, ks = self.ev(body, env)
        if any(k not in env for k in ks):
            raise NoEval("lam with outer axes")
        # dims of v sorted by key; reorder to descending offset (leftmost = largest j)
        v = np.broadcast_to(expand(v, ks, tuple(sorted(env, key=P.axkey))), tuple(env[k] for k in sorted(env, key=P.axkey)))
        order = sorted(range(len(bs)), key=lambda i: -self.integer(offs[i]))
        skeys = sorted(env, key=P.axkey)
        v = np.transpose(v, [skeys.index(bs[i].k) for i in order])
        return v, tuple(self.integer(offs[i]) for i in order)

    def outer_lam(self, p, env):
        """lam term over one axis whose body may depend on axes of env: (array with the bound axis last, outer keys)."""
        s = p.single()
        if s is None or s[1] != 1 or len(s[0]) != 1 or s[0][0][0].tag != "lam" or s[0][0][1] != 1:
            return np.asarray(self.scalar(p)).reshape(1), ()
        a = s[0][0][0]
        bs, body, offs, sz = a.args[:4]
        if len(bs) != 1:
            raise NoEval("lam over several axes")
        k = bs[0].k
        n = self.integer(sz[0])
        if n <= 0:
            n = self._find(body, k, set())
            if n is None:
                raise NoEval("lam size")
        v, ks = self.ev(body, {**{q: w for q, w in env.items() if q != k}, k: n})
        rest = tuple(q for q in ks if q != k)
        if k not in ks:
            return np.repeat(np.asarray(v)[..., None], n, axis=-1), rest
        return np.moveaxis(v, ks.index(k), -1), rest

    def full(self, p, nd=None):
        """lam value as a plain array with missing axes of length 1."""
        v, offs = self.lamval(p)
        v = np.asarray(v)
        if not offs:
            return v.reshape((1,) * (nd or 0))
        n = max(max(offs), nd or 0)
        idx = tuple(slice(None) if j in offs else None for j in range(n, 0, -1))
        return v[idx]

    def standin(self, tag, *vals):
        """Fixed smooth pseudo-random scalar function of arrays."""
        s = 0.0
        for i, v in enumerate(vals):
            v = np.nan_to_num(np.asarray(v, dtype=complex), nan=0.7, posinf=3.0, neginf=-3.0)
            r = np.random.default_rng(_seed(tag, i, v.shape, 5))
            w = r.uniform(0.5, 1.5, size=v.shape)
            s = s + (w * (v.real + 0.37 * v.imag)).sum()
        return s

    def _atom(self, a, env):
        t, g = a.tag, a.args
        if t == "sym":
            v = self.sym(a)
            return np.asarray(v), ("~sweep",) if isinstance(v, np.ndarray) and v.ndim else ()
        if t == "I":
            return np.asarray(1j), ()
        if t == "pi":
            return np.asarray(math.pi), ()
        if t == "num":
            return np.asarray(float(g[0])), ()
        if t == "nan":
            return np.asarray(math.nan), ()
        if t == "inf":
            return np.asarray(math.inf), ()
        if t == "half":
            return np.asarray((self.sym(g[0]) - g[0].par) // 2), ()
        if t == "in":
            name, ax = g
            sh = self.shapes.get(name)
            sizes = []
            for j, (x, r) in enumerate(ax):
                if sh is not None:
                    sizes.append(self.integer(sh[j]))
                elif env.get(x.k) is not None:
                    sizes.append(env[x.k])
                else:
                    raise NoEval(f"size of input {name}")
            v = self.arr(a, sizes)
            keys = []
            for j, (x, r) in enumerate(ax):
                rr = self.integer(r)
                if rr:
                    v = np.roll(v, rr, axis=j)
                keys.append(x.k)
            return sortdims(v, keys)
        if t == "ix":
            n, x, r = self.integer(g[0]), g[1], self.integer(g[2])
            return (np.arange(n) - r) % n if r else np.arange(n), (x.k,)
        if t == "fftfreq":
            n, x, r = self.integer(g[0]), g[1], self.integer(g[2])
            v = np.rint(np.fft.fftfreq(n) * n)
            return np.roll(v, r), (x.k,)
        if t == "fft":
            inv, x, arg, r = g
            k = x.k
            n = self.size_of(arg, k, env)
            v, ks = self.ev(arg, {**env, k: n})
            if k not in ks:
                v, ks = expand(v, ks, add(ks, k)), add(ks, k)
                v = np.repeat(v, n, axis=ks.index(k))
            d = ks.index(k)
            v = (np.fft.ifft if inv == "i" else np.fft.fft)(v, axis=d)
            rr = self.integer(r)
            return (np.roll(v, rr, axis=d) if rr else v), ks
        if t == "red":
            op, b, n, arg = g
            n = self.integer(n)
            v, ks = self.ev(arg, {**env, b.k: n})
            if b.k not in ks:
                v, ks = expand(v, ks, add(ks, b.k)), add(ks, b.k)
                v = np.repeat(v, n, axis=ks.index(b.k))
            d = ks.index(b.k)
            f = {"sum": np.sum, "mean": np.mean, "max": np.max, "min": np.min, "prod": np.prod, "any": np.any, "all": np.all,
                 "median": np.median, "nansum": np.nansum, "nanmax": np.nanmax, "nanmin": np.nanmin, "std": np.std, "var": np.var}.get(op)
            if f is None:
                raise NoEval("red " + str(op))
            r = f(v, axis=d)
            if op in ("any", "all"):
                r = r.astype(float)
            return np.asarray(r), ks[:d] + ks[d + 1:]
        if t == "at":
            b, idx, arg = g
            n = self.size_of(arg, b.k, {k: v for k, v in env.items() if k != b.k})
            v, ks = self.ev(arg, {**env, b.k: n})
            i, iks = self.ev(idx, env)
            if b.k not in ks:
                return v, ks
            d = ks.index(b.k)
            if not iks:
                j = int(round(float(i.real)))
                if not -n <= j < n:
                    raise NoEval("index out of range")
                return np.take(v, j, axis=d), ks[:d] + ks[d + 1:]
            rest = ks[:d] + ks[d + 1:]
            allk = union(rest, iks)
            v2 = np.moveaxis(v, d, -1)
            v2 = expand(v2, rest, allk, tail=1)
            i2 = expand(np.rint(i.real).astype(int) % n, iks, allk)
            sh = np.broadcast_shapes(v2.shape[:-1], i2.shape)
            v2 = np.broadcast_to(v2, sh + v2.shape[-1:])
            i2 = np.broadcast_to(i2, sh)
            return np.take_along_axis(v2, i2[..., None], axis=-1)[..., 0], allk
        if t == "sl":
            x, start, n_old, arg, n_new = g
            k = x.k
            s, no, nn = self.integer(start), self.integer(n_old), self.integer(n_new)
            v, ks = self.ev(arg, {**env, k: no})
            if k not in ks:
                return v, ks
            d = ks.index(k)
            if s < 0 or s + nn > no:
                raise NoEval("slice out of range")
            return np.take(v, np.arange(s, s + nn), axis=d), ks
        if t == "place":
            x, before, n_old, n_new, arg = g
            k = x.k
            b, no, nn = self.integer(before), self.integer(n_old), self.integer(n_new)
            v, ks = self.ev(arg, {**env, k: no})
            if k not in ks:
                v, ks = expand(v, ks, add(ks, k)), add(ks, k)
                v = np.repeat(v, no, axis=ks.index(k))
            d = ks.index(k)
            pad = [(0, 0)] * v.ndim
            if b < 0 or nn - no - b < 0:
                raise NoEval("negative padding")
            pad[d] = (b, nn - no - b)
            return np.pad(v, pad), ks
        if t == "stack":
            k = g[0].k
            items = [self.ev(q, {kk: vv for kk, vv in env.items() if kk != k}) for q in g[1:]]
            allk = ()
            for v, ks in items:
                allk = union(allk, ks)
            if k in allk:
                raise NoEval("stack axis reused")
            vs = [expand(v, ks, allk) for v, ks in items]
            sh = np.broadcast_shapes(*[v.shape for v in vs])
            st = np.stack([np.broadcast_to(v, sh) for v in vs], axis=-1)
            return sortdims(st, allk + (k,))
        if t == "bins":
            kq, kr, bb, n, b, arg = g
            n, b = self.integer(n), self.integer(b)
            v, ks = self.ev(arg, {**env, bb.k: n})
            d = ks.index(bb.k)
            v = v.reshape(v.shape[:d] + (n // b, b) + v.shape[d + 1:])
            return sortdims(v, ks[:d] + (kq.k, kr.k) + ks[d + 1:])
        if t == "roll":
            x, r, arg = g
            v, ks = self.ev(arg, env)
            if x.k not in ks:
                return v, ks
            return np.roll(v, self.integer(r), axis=ks.index(x.k)), ks
        if t == "flipax":
            v, ks = self.ev(g[1], env)
            if g[0].k not in ks:
                return v, ks
            return np.flip(v, axis=ks.index(g[0].k)), ks
        if t == "take":
            i, ks = self.ev(g[1], env)
            tab = [self.scalar(q) for q in g[0]]
            j = np.rint(np.real(i)).astype(int)
            if ((j < -len(tab)) | (j >= len(tab))).any():
                raise NoEval("table index")
            return np.asarray(tab)[j], ks
        if t == "P":
            return self.ev(g[0], env)
        if t == "ind":
            return self.ind(a, env)
        if t == "ite":
            c = self.truth(g[0], env)
            if not c[1]:
                return self.ev(g[1] if bool(c[0]) else g[2], env)
            x, y = self.ev(g[1], env), self.ev(g[2], env)
            ks = union(c[1], x[1], y[1])
            return np.where(expand(c[0], c[1], ks), expand(x[0], x[1], ks), expand(y[0], y[1], ks)), ks
        if t in U1:
            return bop1(U1[t], self.ev(g[0], env))
        if t in ("angle", "abs", "real", "imag", "conj"):
            return bop1(U1[t], self.ev(g[0], env))
        if t == "expb":
            return bop1(np.exp, self.ev(g[0], env))
        if t == "phase":
            return bop1(lambda z: np.exp(1j * angle(z)), self.ev(g[0], env))
        if t in U2:
            return bop(U2[t], self.ev(g[0], env), self.ev(g[1], env))
        if t == "pow":
            x, y = self.ev(g[0], env), self.ev(g[1], env)
            return bop(lambda u, v: np.power(np.asarray(u, dtype=float if not np.iscomplexobj(u) else complex), v), x, y)
        if t == "jacobi":
            n, al, be, x = [self.ev(q, env) for q in g]
            ks = union(n[1], al[1], be[1], x[1])
            f = np.vectorize(jacobi, otypes=[float])
            return f(*[expand(v.real, k, ks) for v, k in (n, al, be, x)]), ks
        if t in ("argmax", "argmin"):
            bs, arg, sizes = g
            e = dict(env)
            for x, s in zip(bs, sizes):
                e[x.k] = self.integer(s)
            v, ks = self.ev(arg, e)
            want = tuple(x.k for x in bs)
            rest = tuple(k for k in ks if k not in want)
            allk = union(ks, want)
            v = np.broadcast_to(expand(v, ks, allk), tuple(e[k] if k in want else v.shape[ks.index(k)] for k in allk))
            order = [allk.index(k) for k in rest] + [allk.index(k) for k in want]
            v = np.transpose(v, order)
            v = v.reshape(v.shape[: len(rest)] + (-1,))
            return np.asarray((np.argmax if t == "argmax" else np.argmin)(np.real(v), axis=-1)), rest
        if t == "unravel":
            j, sh, ix = g
            sh = tuple(self.integer(s) for s in sh)
            i, ks = self.ev(ix, env)
            return np.asarray(np.unravel_index(np.rint(np.real(i)).astype(int), sh)[self.integer(j)]), ks
        if t == "count":
            v, offs = self.lamval(g[0])
            return np.asarray(np.sum(np.abs(v) > 0)), ()
        if t == "lam":
            v, offs = self._lam(a)
            return np.asarray(self.standin("lam", v)), ()
        if t == "isfinite":
            return bop1(lambda z: np.isfinite(z).astype(float), self.ev(g[0], env))
        if t == "binlen":
            v, _ = self.lamval(g[0])
            n = int(np.max(np.rint(np.real(v)))) + 1
            if len(g) > 1:
                n = max(n, self.integer(g[1]))
            return np.asarray(n), ()
        if t == "off":
            raise NoEval("off")
        if t == "efn":
            return self.efn(a, env)
        if t == "opq":
            return self.opq(a, env)
        if t == "phi":
            axes = g[4]
            r = np.random.default_rng(_seed("phi", repr(g[:4])))
            ks = tuple(sorted((x.k if isinstance(x, Ax) else x for x in axes), key=P.axkey))
            sh = []
            for k in ks:
                if env.get(k) is None:
                    raise NoEval("phi size")
                sh.append(env[k])
            v = r.uniform(0.1 if a.nonneg else -1, 1, size=sh)
            if a.integer:
                v = np.rint(v * 3)
            if not a.real:
                v = v + 1j * r.uniform(-1, 1, size=sh)
            return v, ks
        raise NoEval("atom " + t)

    def ind(self, a, env):
        g = a.args
        kind = g[0]
        fx = self.fixed.get(P.as_poly(a).id)
        if fx is not None:
            return np.asarray(float(fx)), ()
        if kind in ("gt", "ge", "eq"):
            v, ks = self.ev(g[1], env)
            v = np.real(v) if np.iscomplexobj(v) and kind != "eq" else v
            tol = self.tie or 1e-13
            if kind == "gt":
                return (v > tol).astype(float), ks
            if kind == "ge":
                return (v >= -tol).astype(float), ks
            return (np.abs(v) <= tol).astype(float), ks
        if kind == "b":
            n = g[1]
            if n == "allclose":
                x, y = self.full(g[2]), self.full(g[3])
                return np.asarray(float(np.allclose(x, y))), ()
            if n == "isclose":
                return bop(lambda x, y: np.isclose(x, y).astype(float), self.ev(g[2], env), self.ev(g[3], env))
            if n == "iscomplex":
                return bop1(lambda x: (np.imag(x) != 0).astype(float), self.ev(g[2], env))
            if n == "isreal":
                return bop1(lambda x: (np.imag(x) == 0).astype(float), self.ev(g[2], env))
            if len(g) == 2 and isinstance(n, str):
                return np.asarray(float(_seed("b", n, self.seed) & 1)), ()
        raise NoEval(f"indicator {g[:2]}")

    def efn(self, a, env):
        g = a.args
        n = g[0]
        if n == "freqat":
            N = self.integer(g[1])
            tab = np.rint(np.fft.fftfreq(N) * N)
            return bop1(lambda j: tab[np.rint(np.real(j)).astype(int) % N], self.ev(g[2], env))
        if n == "gather":
            v, offs = self.lamval(g[1])
            idx = [self.ev(q, env) for q in g[2:]]
            if not offs:
                return np.asarray(v), ()
            nd = len(idx)
            ks = union(*[k for _, k in idx])
            ii = [expand(np.rint(np.real(x)).astype(int), k, ks) for x, k in idx]
            sel = tuple(ii[nd - o] % v.shape[d] for d, o in enumerate(offs))
            return v[np.broadcast_arrays(*sel) if False else tuple(sel)], ks
        if n == "where":
            m, x = self.truth(g[1], env), self.ev(g[2], env)
            return bop3((~m[0], m[1]), x)
        if n == "factorial":
            return bop1(lambda x: np.vectorize(lambda z: math.gamma(z + 1), otypes=[float])(np.real(x)), self.ev(g[1], env))
        if n == "fastlen":
            return np.asarray(0), ()
        if n == "roundto":
            d = self.integer(g[2])
            return bop1(lambda x: np.round(x, d), self.ev(g[1], env))
        if n == "maskat":
            v, offs = self.lamval(g[2])
            flat = np.asarray(v).ravel()
            i, ks = self.ev(g[1], env)
            return np.asarray(flat[int(np.real(i)) % flat.size]), ()
        vals = [self.ev(q, env) for q in g[1:] if isinstance(q, Poly)]
        h = (_seed("efn", n) % 1000) / 1000 + 0.5
        ks = union(*[k for _, k in vals])
        r = 0
        for j, (v, k) in enumerate(vals):
            r = r + np.sin(h * (j + 1) + expand(np.asarray(v), k, ks) * (1.3 + j))
        return r, ks

    def opq(self, a, env):
        g = a.args
        n = g[0]
        if n == "stride":
            k = g[1][0].k
            start, step, arg = g[2], self.integer(g[3]), g[4]
            m = env.get(k)
            no = self.integer(g[5]) if len(g) > 5 else self._find(arg, k, set())
            if no is None or m is None:
                raise NoEval("stride size")
            v, ks = self.ev(arg, {**env, k: no})
            s = self.integer(start)
            idx = s + step * np.arange(m)
            return np.take(v, idx, axis=ks.index(k)), ks
        if n == "flat" and len(g[1]) == 1:
            bs, arg, sizes = g[2], g[3], g[4]
            e = dict(env)
            for x, s in zip(bs, sizes):
                e[x.k] = self.integer(s)
            v, ks = self.ev(arg, e)
            want = tuple(x.k for x in bs)
            rest = tuple(k for k in ks if k not in want)
            allk = union(want, rest)
            v = np.broadcast_to(expand(v, ks, allk), tuple(e[k] if k in want else v.shape[ks.index(k)] for k in allk))
            v = np.transpose(v, [allk.index(k) for k in rest + want])
            v = v.reshape(v.shape[:len(rest)] + (-1,))
            return sortdims(v, rest + (g[1][0].k,))
        if n == "reshape":
            axes, new, lm, old = g[1], g[2], g[3], g[4]
            v = self.full(lm, len(old))
            v = np.broadcast_to(v, tuple(self.integer(s) for s in old))
            sh = tuple(self.integer(s) for s in new)
            return sortdims(v.reshape(sh), tuple(x.k for x in axes))
        if n == "lstsq":
            x, y = self.full(g[2], 2), self.full(g[3], 1)
            m1 = np.abs(self.full(g[4])) > 0 if not g[4].is_zero() else None
            m2 = np.abs(self.full(g[5])) > 0 if not g[5].is_zero() else None
            if m1 is not None:
                x = x * m1.ravel()[:, None] if x.ndim == 2 and x.shape[0] == m1.size else x * m1[..., None]
            if m2 is not None:
                y = y * m2
            x2 = x.reshape(-1, x.shape[-1])
            yy = y.reshape(-1)
            if yy.size == 1:
                yy = np.full(x2.shape[0], yy[0])
            if x2.shape[0] != yy.size:
                raise NoEval("lstsq shapes")
            sv = np.linalg.svd(x2, compute_uv=False)
            if sv.size and np.any((sv < 1e-6 * sv[0]) & (sv > 1e-14 * sv[0])):
                raise NoEval("ill-conditioned least squares")
            return np.linalg.lstsq(x2, yy, rcond=1e-10)[0], (g[1][0].k,)
        if n == "nonzero":
            v = np.abs(self.full(g[3])) > 0
            return np.nonzero(v)[self.integer(g[2])], (g[1][0].k,)
        if n == "bincount":
            x, xk = self.outer_lam(g[2], env)
            if xk:
                raise NoEval("bincount with varying bins")
            x = np.rint(np.real(x)).astype(int)
            if len(g) > 3:
                w, wk = self.outer_lam(g[3], env)
                w = np.broadcast_to(np.real(w), w.shape[:-1] + x.shape)
                m = int(x.max()) + 1
                r = np.array([np.bincount(x, q, m) for q in w.reshape((-1,) + x.shape)]).reshape(w.shape[:-1] + (m,))
                return sortdims(r, wk + (g[1][0].k,))
            return np.bincount(x.ravel()), (g[1][0].k,)
        if n.startswith("pad-"):
            if n[4:] not in ("median", "mean", "edge", "reflect", "symmetric", "wrap", "maximum", "minimum", "linear_ramp") or len(g) > 6 and g[6] != "nonneg":
                raise NoEval("opaque " + n)
            v = np.broadcast_to(self.full(g[4], len(g[5])), tuple(self.integer(s) for s in g[5]))
            w = [(self.integer(b), self.integer(e)) for b, e in zip(g[2], g[3])]
            if n == "pad-median" and np.iscomplexobj(v):
                raise NoEval("median of complex numbers")
            return sortdims(np.pad(v, w, mode=n[4:]), tuple(x.k for x in g[1]))
        if n == "gather0":
            tab, idx = self.full(g[2], len(g[1])), np.rint(np.real(self.full(g[3]))).astype(int)
            return sortdims(tab[idx % tab.shape[0]], tuple(x.k for x in g[1]))
        if n == "conv":
            ks = tuple(x.k for x in g[1])
            nd = len(ks)
            x, y = self.full(g[3], nd), self.full(g[4], nd)
            axes = [self.integer(q) for q in g[2]]
            mode = g[5] if len(g) > 5 else "same"
            full = [x.shape[j] + y.shape[j] - 1 for j in axes]
            r = np.fft.ifftn(np.fft.fftn(x, full, axes=axes) * np.fft.fftn(y, full, axes=axes), axes=axes)
            if mode == "same":
                for j in axes:
                    st = (y.shape[j] - 1) // 2
                    r = np.take(r, np.arange(st, st + x.shape[j]), axis=j)
            if a.real:
                r = r.real
            return sortdims(r, ks)
        if n == "unwrap":
            ks = tuple(x.k for x in g[1])
            v = self.full(g[2], len(ks))
            # some function that agrees with its argument modulo 2 pi and does not commute with shifts
            turns = sum((2 * j + 3) * ix for j, ix in enumerate(np.indices(v.shape))) % 4 - 1
            return sortdims(v.real + 2 * np.pi * turns, ks)
        if n.startswith("unwrap1") or n in ("cumsum", "sort"):
            ks = tuple(x.k for x in g[1])
            v = self.full(g[2], len(ks))
            f = {"cumsum": lambda z: np.cumsum(z, axis=-1), "sort": lambda z: np.sort(z, axis=-1)}.get(n, lambda z: np.unwrap(z))
            return sortdims(f(v), ks)
        raise NoEval("opaque " + str(n))


# ------------------------------------------------------------------ helpers
def angle(z):
    """Angle with rounding noise removed: numbers that vanish (or are real) up to rounding have no noisy angle."""
    z = np.asarray(z)
    if not np.iscomplexobj(z):
        return np.angle(z)
    with np.errstate(all="ignore"):
        m = np.abs(z)
        big = np.nanmax(m) if m.size else 0.0
        eps = 1e-12 * big
        re = np.where(np.abs(z.real) <= eps, 0.0, z.real)
        im = np.where(np.abs(z.imag) <= eps, 0.0, z.imag)
    return np.arctan2(im + 0.0, re + 0.0)


def union(*kss):
    s = set()
    for ks in kss:
        s.update(ks)
    return tuple(sorted(s, key=P.axkey))


def add(ks, k):
    return union(ks, (k,))


def expand(v, ks, allk, tail=0):
    """Insert singleton dims so that v (dims ks) has dims allk."""
    if ks == allk:
        return v
    idx = tuple(slice(None) if k in ks else None for k in allk) + (slice(None),) * tail
    return np.asarray(v)[idx]


def sortdims(v, keys):
    keys = tuple(keys)
    sk = tuple(sorted(keys, key=P.axkey))
    if len(set(sk)) != len(sk):
        raise NoEval("repeated axis")
    return np.transpose(v, [keys.index(k) for k in sk]), sk


def bop(f, x, y):
    ks = union(x[1], y[1])
    with np.errstate(all="ignore"):
        return np.asarray(f(expand(x[0], x[1], ks), expand(y[0], y[1], ks))), ks


def bop1(f, x):
    with np.errstate(all="ignore"):
        return np.asarray(f(x[0])), x[1]


def bop3(zero, t):
    ks = union(zero[1], t[1])
    z, v = expand(zero[0], zero[1], ks), expand(t[0], t[1], ks)
    return np.where(z, 0.0, v), ks


def power(v, e, a):
    if e == 1:
        return v
    x = v[0]
    with np.errstate(all="ignore"):
        if e.denominator == 1:
            if e > 0:
                return np.asarray(x ** int(e)), v[1]
            return np.asarray(1.0 / (np.asarray(x, dtype=complex if np.iscomplexobj(x) else float) ** int(-e))), v[1]
        if a.tag in ("P",) and not P.is_real(a.args[0]) or not a.real:
            return np.asarray(np.asarray(x, dtype=complex) ** float(e)), v[1]
        x = np.real(x)
        # rounding noise of an exact zero stays a zero
        x = np.where((x < 0) & (x > -1e-13), 0.0, x)
        return np.asarray(np.power(np.asarray(x, dtype=float), float(e))), v[1]


def jacobi(n, a, b, x):
    n = int(round(n))
    if n < 0:
        return math.nan
    tot = 0.0

    def binom(top, k):
        r = 1.0
        for j in range(k):
            r = r * (top - j) / (j + 1)
        return r

    for s in range(n + 1):
        tot += ((x - 1) / 2) ** (n - s) * ((x + 1) / 2) ** s * binom(n + a, s) * binom(n + b, n - s)
    return tot


def _rl(f):
    return lambda x: f(np.real(x))


U1 = {
    "sin": np.sin, "cos": np.cos, "tan": np.tan, "arcsin": _rl(np.arcsin), "arccos": _rl(np.arccos), "arctan": _rl(np.arctan),
    "angle": angle, "abs": np.abs, "real": np.real, "imag": np.imag, "conj": np.conj,
    "ceil": _rl(lambda x: np.ceil(x - 1e-9)), "floor": _rl(lambda x: np.floor(x + 1e-9)), "rint": _rl(np.rint), "trunc": _rl(np.trunc), "log": np.log,
}
U2 = {
    "arctan2": lambda y, x: np.arctan2(np.real(y), np.real(x)),
    "max": lambda x, y: np.fmax(np.real(x), np.real(y)), "min": lambda x, y: np.fmin(np.real(x), np.real(y)),
    "floordiv": lambda x, y: np.floor(np.real(x) / np.real(y) + 1e-12),
    "mod": lambda x, y: np.real(x) - np.real(y) * np.floor(np.real(x) / np.real(y) + 1e-12),
}


def compare(model, t1, t2, shape, rtol=1e-7, where=None):
    """'equal', ('differ', index, v1, v2) or ('unknown', why)."""
    try:
        with np.errstate(all="ignore"):
            a, b = model.array(t1, shape), model.array(t2, shape)
    except NoEval as e:
        return ("unknown", str(e))
    except (IndexError, ValueError, ZeroDivisionError, OverflowError, TypeError, KeyError) as e:
        return ("unknown", f"{type(e).__name__}: {e}")
    if a.size == 0:
        return "equal"
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    both = ~(na | nb)
    if not both.any():
        if all(any(x.tag == "nan" for x in P.atoms_deep(P.as_poly(t))) for t in (t1, t2)) and np.isnan(a).all() and np.isnan(b).all():
            return "equal"  # undefined on purpose on both sides
        return ("unknown", "not finite")
    sc = max(np.abs(a[both]).max(), np.abs(b[both]).max(), 1e-300)
    d = np.where(both, np.abs(np.where(both, a, 0) - np.where(both, b, 0)), 0.0)
    if where is not None:
        d = np.where(where, d, 0.0)
    m = d > rtol * sc
    if m.any():
        i = np.unravel_index(np.argmax(d), d.shape)
        return ("differ", tuple(int(q) for q in i), a[i], b[i])
    # a value that is finite on one side and undefined on the other is a difference too
    one = na ^ nb
    if where is not None:
        one = one & where
    if one.any():
        i = np.unravel_index(np.argmax(one), one.shape)
        return ("nonfinite", tuple(int(q) for q in i), a[i], b[i])
    return "equal"
