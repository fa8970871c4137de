"""Properties of pyotf.zernike."""
from ..check import *

NAMES = {1: "piston", 2: "tip", 3: "tilt", 4: "defocus", 5: "oblique astigmatism", 6: "vertical astigmatism", 7: "vertical coma",
         8: "horizontal coma", 9: "vertical trefoil", 10: "oblique trefoil", 11: "primary spherical", 12: "vertical secondary astigmatism",
         13: "oblique secondary astigmatism", 14: "vertical quadrafoil", 15: "oblique quadrafoil"}


def noll_degrees(j):
    """Radial and azimuthal degree of Noll's index j, from the rules that define the order (R. Noll, JOSA 66, 207):
    increasing n, then increasing |m|; even j carry the cosine (m > 0), odd j the sine (m < 0)."""
    n, first = 0, 1
    while first + n + 1 <= j:
        first += n + 1
        n += 1
    k = j - first  # position inside the row
    am = 2 * ((k + 1) // 2) if n % 2 == 0 else 2 * (k // 2) + 1
    return n, 0 if am == 0 else am if j % 2 == 0 else -am


def ints(lab, v):
    """Concrete integers of an abstract array or scalar, or None."""
    a = lab.av(v)
    if a is None or a.shape is None:
        return None
    m = E.Model({}, seed=0)
    try:
        x = m.array(a.term, a.shape)
    except Exception:
        return None
    if P.atoms_deep(a.term) and any(t.tag in ("sym", "in") for t in P.atoms_deep(a.term)):
        return None
    return np.asarray(x).real.tolist()


def expect_ints(rep, rule, label, lab, v, want, integer=True):
    got = ints(lab, v)
    if got is None:
        rep.undecided(rule, label, "not a constant: " + describe_v(lab.I.res(v)))
    elif got != want:
        rep.bad(rule, label, f"is {got}, expected {want}")
    elif integer and lab.av(v).kind not in ("i", "b"):
        rep.bad(rule, label, f"is {got} but not of integer type")
    else:
        rep.ok(rule, label)


def const_arr(lab, xs):
    """numpy integer array with the given entries."""
    from .. import npmodel

    return lab.run(lambda: lab.I.call_ext("numpy.array", [lab.I.new_list([num(x) for x in xs])], {})).value if hasattr(lab.I, "call_ext") else \
        npmodel.EXT["numpy.array"](lab.I, [lab.I.new_list([num(x) for x in xs])], {})


def c15(rep, thorough):
    lab = Lab()
    f, g = lab.g("zernike", "noll2degrees"), lab.g("zernike", "degrees2noll")
    J = range(1, 121)
    for j in J:
        n, m = noll_degrees(j)
        o = lab.call(f, num(j))
        if rep.need("noll2degrees accepts the index", f"noll2degrees({j})", o):
            v = pair(lab, o.value)
            if v is None:
                rep.undecided("noll2degrees follows Noll's order", f"noll2degrees({j})", describe_v(o.value))
            else:
                for x, w, nm in zip(v, (n, m), ("radial", "azimuthal")):
                    expect_ints(rep, "noll2degrees follows Noll's order", f"noll2degrees({j}) {nm} degree", lab, x, w)
        o = lab.call(g, num(n), num(m))
        if rep.need("degrees2noll accepts the degrees", f"degrees2noll({n}, {m})", o):
            expect_ints(rep, "degrees2noll inverts Noll's order", f"degrees2noll({n}, {m})", lab, o.value, j)
    # arrays at once
    nm = [noll_degrees(j) for j in J]
    a = const_arr(lab, list(J))
    o = lab.call(f, a)
    if rep.need("noll2degrees accepts arrays", "noll2degrees(arange(1, 121))", o):
        v = pair(lab, o.value)
        if v is None:
            rep.undecided("noll2degrees of an array", "noll2degrees(arange(1, 121))", describe_v(o.value))
        else:
            for x, w, t in zip(v, zip(*nm), ("radial", "azimuthal")):
                expect_ints(rep, "noll2degrees of an array", f"noll2degrees(arange(1, 121)) {t} degrees", lab, x, list(w))
    o = lab.call(g, const_arr(lab, [n for n, m in nm]), const_arr(lab, [m for n, m in nm]))
    if rep.need("degrees2noll accepts arrays", "degrees2noll(all degrees)", o):
        expect_ints(rep, "degrees2noll of arrays", "degrees2noll(all degrees)", lab, o.value, list(J))
    for lst in ([3, 1, 7], [11]):
        o = lab.call(f, lab.I.new_list([num(j) for j in lst]))
        if rep.need("noll2degrees accepts lists", f"noll2degrees({lst})", o):
            v = pair(lab, o.value)
            if v is not None:
                for x, w in zip(v, zip(*[noll_degrees(j) for j in lst])):
                    expect_ints(rep, "noll2degrees of a list", f"noll2degrees({lst})", lab, x, list(w))
    # beyond the tables: an error, never another mode
    for j in (121, 137, 240):
        raised(rep, "indices beyond the table are refused", f"noll2degrees({j})", lab, lab.call(f, num(j)), lambda v: pair(lab, v) is not None and
               [ints(lab, x) for x in pair(lab, v)] == list(noll_degrees(j)))
    for n, m in ((15, -15), (16, 0), (15, 15), (31, 3)):
        j = next(j for j in range(1, 700) if noll_degrees(j) == (n, m))
        raised(rep, "degrees beyond the table are refused", f"degrees2noll({n}, {m})", lab, lab.call(g, num(n), num(m)), lambda v: ints(lab, v) == j)
    # classical names
    name_table(rep, lab)
    rep.seen(lab)


def pair(lab, v):
    v = lab.I.res(v)
    if isinstance(v, tuple) and len(v) == 2:
        return v
    return None


def raised(rep, rule, label, lab, o, also=lambda v: False):
    """Invalid input must raise; a correct answer would be fine too."""
    if o.status == "raises":
        rep.ok(rule, label, o.why)
    elif o.status == "undecided":
        rep.undecided(rule, label, o.why)
    elif also(o.value):
        rep.ok(rule, label)
    else:
        rep.bad(rule, label, f"returns {describe_v(o.value)} instead of raising")


def name_table(rep, lab):
    I = lab.I
    t = {}
    for name in ("noll2name", "name2noll"):
        v = I.res(lab.g("zernike", name)) if lab.has("zernike", name) else None
        if not isinstance(v, DictRef):
            rep.undecided("classical names", name, "is not a dictionary the analysis can follow")
            return
        t[name] = I.cell(v).d
    conc = {}
    for name, d in t.items():
        c = {}
        for k, v in d.items():
            if isinstance(v, AV):
                v = ints(lab, v)
            if isinstance(k, AV):
                k = ints(lab, k)
            k = int(k) if isinstance(k, (float, int)) else getattr(k, "v", k)
            c[k] = int(v) if isinstance(v, float) else v
        conc[name] = c
    for j, n in NAMES.items():
        got = conc["noll2name"].get(j)
        (rep.ok if got == n else rep.bad)("classical names", f"noll2name[{j}]", "" if got == n else f"is {got!r}, expected {n!r} (degrees {noll_degrees(j)})")
        got = conc["name2noll"].get(n)
        (rep.ok if got == j else rep.bad)("classical names", f"name2noll[{n!r}]", "" if got == j else f"is {got!r}, expected {j}")


# ------------------------------------------------------------------ polynomials
def grid(lab, nd):
    shape = tuple(isym(f"n{i + 1}", 4) for i in range(nd))
    if nd == 0:
        return fl("r0", nonneg=True, pos=False), fl("t0", pos=False)
    return lab.array("r", shape, nonneg=True), lab.array("th", shape)


ZS = Samples()


def want(lab, r, th, nms, norm):
    return refcall(lab, "zern", "modes", r, th, tuple((num(n), num(m)) for n, m in nms), boolv(norm))


def drop1(lab, v):
    """Reference with the leading axis removed when there is one mode."""
    from ..npmodel import take0

    return take0(lab.I, lab.av(v))


def c16(rep, thorough):
    J = list(range(1, 121))
    for norm in (True, False):
        for i in range(0, 120, 15):
            rep.spawn(single_modes, J[i:i + 15], norm, 2)
    for nd in (0, 1):
        rep.spawn(single_modes, J[:37] if thorough else J[:15], True, nd)
    rep.spawn(sequences)
    rep.spawn(outside)
    rep.spawn(defaults)


def single_modes(rep, js, norm, nd):
    lab = Lab()
    z = lab.g("zernike", "zernike")
    r, th = grid(lab, nd)
    for j in js:
        n, m = noll_degrees(j)
        ref = want(lab, r, th, [(n, m)], norm)
        forms = [(f"zernike(r, theta, {j}, norm={norm})", (num(j),))]
        if j <= 36:
            forms.append((f"zernike(r, theta, {n}, {m}, norm={norm})", (num(n), num(m))))
        for label, args in forms:
            label += f" on {nd} dimensions"
            o = lab.call(z, r, th, *args, norm=boolv(norm))
            if rep.need("zernike completes", label, o) and ref.ok:
                compare(rep, "zernike equals the closed formula", label, lab, o.value, drop1(lab, ref.value), ZS)
            elif not ref.ok:
                rep.undecided("reference", label, ref.why)
    rep.seen(lab)


def sequences(rep):
    lab = Lab()
    z = lab.g("zernike", "zernike")
    r, th = grid(lab, 2)
    I = lab.I
    for js in ([1, 2, 3, 4, 5], [7], [11, 4, 2], list(range(1, 16))):
        nms = [noll_degrees(j) for j in js]
        ref = want(lab, r, th, nms, True)
        if not ref.ok:
            rep.undecided("reference", str(js), ref.why)
            continue
        ref = ref.value if len(js) > 1 else drop1(lab, ref.value)
        ns, ms = [n for n, m in nms], [m for n, m in nms]
        forms = [("array", (const_arr(lab, js),)), ("list", (I.new_list([num(j) for j in js]),)), ("tuple", (tuple(num(j) for j in js),)),
                 ("two arrays", (const_arr(lab, ns), const_arr(lab, ms))), ("two lists", (I.new_list([num(n) for n in ns]), I.new_list([num(n) for n in ms]))),
                 ("pair", ((I.new_list([num(n) for n in ns]), I.new_list([num(n) for n in ms])),))]
        for name, args in forms:
            label = f"zernike(r, theta, {js if len(js) < 6 else '1..15'} as {name})"
            o = lab.call(z, r, th, *args)
            if rep.need("zernike completes", label, o):
                compare(rep, "zernike of several modes stacks them in order", label, lab, o.value, ref, ZS)
    rep.seen(lab)


def outside(rep):
    """Beyond the unit disk every mode vanishes."""
    lab = Lab()
    z = lab.g("zernike", "zernike")
    n = isym("n1", 4)
    r0 = lab.array("u", (n, n), nonneg=True)
    r = lab.run(lambda: lab.I.binop("Add", r0, num(F(1001, 1000)))) if hasattr(lab.I, "binop") else None
    th = lab.array("th", (n, n))
    if r is None or not r.ok:
        rep.undecided("zero outside the unit disk", "zernike", "no input beyond the disk" if r is None else r.why)
        return
    for j in (1, 2, 3, 4, 11, 22, 37):
        label = f"zernike(r > 1, theta, {j})"
        o = lab.call(z, r.value, th, num(j))
        if rep.need("zernike completes", label, o):
            zero = AV((n, n), "f", F(0), ZERO)
            compare(rep, "zero outside the unit disk", label, lab, o.value, zero, ZS)
    rep.seen(lab)


def defaults(rep):
    """Without norm the result is the normalised one, for both call forms."""
    lab = Lab()
    z = lab.g("zernike", "zernike")
    r, th = grid(lab, 2)
    for j in (1, 4, 5, 8, 11):
        n, m = noll_degrees(j)
        ref = want(lab, r, th, [(n, m)], True)
        for label, args in ((f"zernike(r, theta, {j})", (num(j),)), (f"zernike(r, theta, {n}, {m})", (num(n), num(m)))):
            o = lab.call(z, r, th, *args)
            if rep.need("zernike completes", label, o) and ref.ok:
                compare(rep, "modes are normalised by default", label, lab, o.value, drop1(lab, ref.value), ZS)
    # degrees whose difference is odd are no modes
    for n, m in ((1, 0), (3, 2), (4, -1)):
        label = f"zernike(r, theta, {n}, {m})"
        o = lab.call(z, r, th, num(n), num(m))
        if o.status == "raises":
            rep.ok("degrees of different parity give zero or an error", label, o.why)
        elif rep.need("zernike completes", label, o):
            s = lab.av(r).shape
            compare(rep, "degrees of different parity give zero or an error", label, lab, o.value, AV(s, "f", F(0), ZERO), ZS)
    rep.seen(lab)


CHECKS = {"C15": c15, "C16": c16}
