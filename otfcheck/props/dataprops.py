"""Who owns which data: arguments stay the caller's, and nothing is remembered between calls (C03, C23)."""
from ..check import *
from .aberprops import NAMES, frozen
from .psfmodels import OUTPUTS, check_mutations
from .utilprops import US

MS = Samples()


class Case:
    """One public operation: the arguments that belong to the caller, the call, and what can be read from its result."""

    def __init__(self, args, call, outs=(None,)):
        self.args, self.call, self.outs = args, call, outs


def sz(name, par, s, lb=9):
    return isym(name + s, lb + (lb % 2 != par), par)


# ------------------------------------------------------------------ operations: f(lab, suffix of all symbols) -> Case
def fn(mod, name, mk):
    """Function `name` called with what mk(lab, suffix) returns: (positional, keywords)."""

    def f(lab, s):
        a, k = mk(lab, s)
        d = {f"argument {i}": v for i, v in enumerate(a)}
        d.update(k)
        return Case(d, lambda: lab.call(lab.g(mod, name), *a, **k))

    return f


def stack(lab, s, how, kind="i"):
    n, d = sz("n0", 1, s), sz("d0", 0, s, 2)
    ny, nx = {"square": (n, n), "wide": (n, n + d), "tall": (n + d, n)}[how]
    return lab.array("data" + s, (sz("nz", 0, s, 6), ny, nx), kind=kind, nonneg=True), n, d


def prep(how, crop, lab, s):
    x, n, d = stack(lab, s, how)
    return (x,), ({"xysize": intv(n)} if crop else {})


def pad(mode, lab, s):
    n, d = sz("n0", 1, s), sz("d0", 0, s, 2)
    x = lab.array("x" + s, (n, n + d))
    return (x, lab.I.new_list([intv(n + d), intv(n)])), ({"mode": mode} if mode else {})


def same_size(mode, lab, s):
    n, d = sz("n0", 1, s), sz("d0", 0, s, 2)
    x = lab.array("x" + s, (n, n + d))
    return (x, lab.I.new_list([intv(n), intv(n + d)])), ({"mode": mode} if mode else {})


def vec(name, kind, *dims):
    def f(lab, s):
        return lab.array(name + s, [sz(d, i % 2, s) for i, d in enumerate(dims)], kind=kind)

    return f


def one(mk, **kw):
    return lambda lab, s: ((mk(lab, s),), kw)


def binned(how, lab, s):
    x = lab.array("x" + s, (2 * isym("q0" + s, 3), 3 * isym("q1" + s, 3)))
    b = lab.I.new_list([num(2), num(3)]) if how != "ones" else lab.I.new_list([num(1), num(1)])
    return (x,), {"bin_size": b, "operation": "mean" if how == "mean" else "sum"}


def profile(lab, s):
    x = lab.array("x" + s, (sz("n0", 0, s), sz("n1", 1, s)))
    return (x,), {"center": lab.I.new_list([num(4), num(5)])}


def polar(lab, s):
    a = [sz("n0", 0, s), sz("n1", 1, s)]
    return (lab.array("y" + s, a), lab.array("x" + s, a)), {}


def window(lab, s):
    return (lab.I.new_list([isz("x0" + s, 0), isz("x1" + s, 0)]), lab.I.new_list([isz("w0" + s, 1), isz("w1" + s, 1)])), {}


def disk(lab, s, kind="f"):
    n = [sz("n0", 0, s), sz("n1", 1, s)]
    return lab.array("r" + s, n, nonneg=True, kind=kind), lab.array("theta" + s, n, kind=kind)


def ilist(lab, *xs):
    return lab.I.new_list([num(x) for x in xs])


def iarr(lab, *xs):
    return lab.call(lab.I.getattr(lab.np, "array"), ilist(lab, *xs)).value


def noll_list(js, js2):
    return lambda lab, s: ((ilist(lab, *(js2 if s else js)),), {})


def zern(how, lab, s):
    r, t = disk(lab, s)
    a = {"noll list": (ilist(lab, *((1, 6, 7) if s else (2, 4, 11))),), "noll": (num(9 if s else 8),),
         "degrees": (ilist(lab, 2, 3), ilist(lab, *((0, -1) if s else (2, 1))))}[how]
    return (r, t) + a, ({"norm": boolv(False)} if s else {})


def kwz(s, par="even", **kw):
    d = dict(wl=fl("wl" + s, 1), na=fl("na" + s), ni=fl("ni" + s), res=fl("res" + s, 1), size=size_sym("size" + s, par),
             zres=fl("zres" + s, 1), zsize=size_sym("zsize" + s, "odd"), vec_corr="y" if s else "none", condition="herschel" if s else "sine")
    d.update(kw)
    return d


def positions(lab, s, form):
    if form == "list":
        return lab.I.new_list([fl(f"zp{i}" + s, 1, pos=False) for i in range(4)])
    if form == "number":
        return fl("zp" + s, 1)
    return lab.array("zr" + s, (isym("nz" + s, 4),), unit=1, kind="i" if form == "integer array" else "f")


def hanser(form, how, lab, s):
    z = positions(lab, s, form)
    kw = kwz(s)

    def call():
        if how == "constructor":
            return make(lab, "HanserPSF", dict(kw, zrange=z))
        o = make(lab, "HanserPSF", kw)
        if o.ok:
            if how == "assigned after reading":
                lab.get(o.value, "PSFi")
            r = lab.set(o.value, "zrange", z)
            if not r.ok:
                return r
        return o

    return Case({"zrange": z}, call, ("zrange",) + OUTPUTS)


def sheppard(lab, s):
    kw = kwz(s, dual=boolv(bool(s)))
    return Case({}, lambda: make(lab, "SheppardPSF", kw), OUTPUTS)


def pupil(cond, vc, kind, lab, s):
    kw = kwz(s, condition=cond, vec_corr=vc)
    n = kw["size"].term
    p = lab.array("pup" + s, (n, n), kind=kind)

    def call():
        o = make(lab, "HanserPSF", kw)
        if o.ok:
            r = lab.meth(o.value, "apply_pupil", p)
            if not r.ok:
                return r
        return o

    return Case({"pupil": p}, call, OUTPUTS)


def aberrate(lab, s):
    kw = kwz(s)

    def call():
        o = make(lab, "HanserPSF", kw)
        return lab.call(lab.g("otf", "apply_aberration"), o.value, mc, pc) if o.ok else o

    mc, pc = (lab.array(a + s, (P.as_poly(5),)) for a in ("mc", "pc"))
    return Case({"mcoefs": mc, "pcoefs": pc}, call, OUTPUTS)


def aberrate_named(js, lab, s):
    kw = kwz(s)
    d = lab.dict({NAMES[j]: fl(f"mag{j}" + s, pos=False) for j in ((5, 9) if s else js)})

    def call():
        o = make(lab, "HanserPSF", kw)
        return lab.call(lab.g("otf", "apply_named_aberrations"), o.value, d) if o.ok else o

    return Case({"aberrations": d}, call, OUTPUTS)


def scope(cls, zr, ori, lab, s):
    from .microprops import SIM_KW, mk_micro

    kw = dict(model="hanser", na=fl("na" + s), ni=fl("ni" + s), wl=fl("wl" + s, 1), size=size_sym("size" + s, "even"), pixel_size=fl("px" + s, 1),
              oversample_factor=num(1), vec_corr="none", condition="none")
    args = {}
    if zr:
        args["zrange"] = kw["zrange"] = positions(lab, s, "array")
    if cls == "ConfocalMicroscope":
        kw.update(wl_exc=fl("wle" + s, 1), pinhole_size=fl("ph" + s))
    if "SIM" in cls:
        kw.update(SIM_KW, na_exc=fl("nae" + s), wl_exc=fl("wle" + s, 1), wiener=fl("w" + s))
        if cls != "LatticeSIMMicroscope":
            ths = [num(0), fl("th1" + s), fl("th2" + s)]
            args["orientations"] = kw["orientations"] = lab.I.new_list(ths) if ori == "list" else lab.call(lab.I.getattr(lab.np, "array"), lab.I.new_list(ths)).value
    return Case(args, lambda: mk_micro(lab, cls, kw), ("PSF", "OTF"))


def retrieve(kind, po, lab, s, full=False):
    n, nz = size_sym("size" + s, "even"), size_sym("zsize" + s, "odd")
    d = lab.array("data" + s, (nz.term, n.term, n.term), kind=kind)
    p = {k: fl(k + s, k in ("wl", "res", "zres")) for k in ("wl", "na", "ni", "res", "zres")}
    if full:
        p.update(size=size_sym("psize" + s, "odd"), zsize=size_sym("pzsize" + s, "odd"), vec_corr="total", condition="sine")
    if full == "zrange":
        p["zrange"] = lab.array("zr" + s, (nz.term,), unit=1)
    p = lab.dict(p)
    return Case({"data": d, "params": p}, lambda: lab.call(lab.g("phaseretrieval", "retrieve_phase"), d, p, num(2), phase_only=boolv(po)),
                ("mag", "phase", "mse", "mse_diff", "pupil_diff", "complex_pupil"))


def result(lab, s):
    kw = kwz(s, vec_corr="none", condition="none")
    n = kw["size"].term
    m = make(lab, "HanserPSF", kw)
    a = dict(mag=lab.array("mag" + s, (n, n), nonneg=True), phase=lab.array("ph" + s, (n, n)))
    a.update({x: lab.array(x + s, (isym("its" + s, 1),)) for x in ("mse", "pupil_diff", "mse_diff")})
    return a, m, kw


def on_result(name, mk, outs, lab, s):
    """A method of a retrieval result, applied to maps of the caller."""
    a, m, kw = result(lab, s)
    args, k = mk(lab, s, kw)
    given = dict(a)
    given.update({q: v for q, v in k.items()})

    def call():
        if not m.ok:
            return m
        o = lab.call(lab.g("phaseretrieval", "PhaseRetrievalResult"), model=m.value, **a)
        if o.ok and name == "generate_zd_psf":
            f = lab.meth(o.value, "fit_to_zernikes", num(5))
            if not f.ok:
                return f
        if o.ok and name == "complex_pupil":
            return lab.get(o.value, name)
        return lab.meth(o.value, name, *args, **k) if o.ok else o

    return Case(given, call, outs)


def on_zd(name, mk, lab, s):
    n = sz("n0", 0, s)
    k = 6
    a = dict(mag_coefs=lab.array("mcf" + s, (P.as_poly(k),)), phase_coefs=lab.array("pcf" + s, (P.as_poly(k),)), zerns=lab.array("zs" + s, (P.as_poly(k), n, n)))

    def call():
        o = lab.call(lab.g("phaseretrieval", "ZernikeDecomposition"), **a)
        return lab.meth(o.value, name, **mk()) if o.ok else o

    return Case(a, call)


def figure(name, lab, s):
    x = lab.array("psf" + s, (sz("n0", 0, s), sz("n1", 1, s), sz("n1", 1, s)), nonneg=True)
    k = dict(zres=fl("zres" + s, 1), res=fl("res" + s, 1))
    if name == "otf_plot":
        k.update(na=fl("na" + s), ni=fl("ni" + s), wl=fl("wl" + s, 1))
    if s and not isinstance(s, str):
        # the caller's own style
        k.update(cmap="gray", interpolation="bicubic", vmin=num(F(1, 10)), vmax=num(2))
        if name == "psf_plot":
            k.update(gamma=num(F(3, 4)), mip=boolv(False))
    return (x,), k


def wrapper(form, lab, s):
    x, n, d = stack(lab, s, "square")
    if form == "nested lists":
        x = lab.I.new_list([lab.I.getitem(lab.array("data" + s, (P.as_poly(4), n, n), kind="i", nonneg=True), num(j)) for j in range(4)])
    p = [fl(k + s, k in ("wl", "res", "zres")) for k in ("wl", "na", "ni", "res", "zres")]
    return Case({"data": x}, lambda: lab.call(lab.g("labview", "labview"), x, *p, max_iters=num(2)), ())


def part(f, *a):
    return lambda lab, s: f(*a, lab, s)


def operations(thorough):
    """label -> (builder, function it is about)."""
    ops = {}
    for how, crop in (("square", 0), ("wide", 0), ("tall", 1), ("wide", 1)):
        ops[f"prep_data_for_PR ({how}{', cropped' if crop else ''})"] = fn("utils", "prep_data_for_PR", part(prep, how, crop))
    for mode in ("constant", None, "wrap"):
        ops[f"fft_pad ({mode or 'default'})"] = fn("utils", "fft_pad", part(pad, mode))
        ops[f"fft_pad (same shape, {mode or 'default'})"] = fn("utils", "fft_pad", part(same_size, mode))
    ops["center_data"] = fn("utils", "center_data", one(vec("x", "f", "n0", "n1")))
    ops["center_data (3-D integers)"] = fn("utils", "center_data", one(vec("x", "i", "n0", "n1", "n2")))
    ops["remove_bg"] = fn("utils", "remove_bg", lambda lab, s: ((lab.array("x" + s, (sz("n0", 0, s), sz("n1", 1, s)), kind="i", nonneg=True),), {}))
    ops["remove_bg (multiplier 0)"] = fn("utils", "remove_bg", lambda lab, s: ((lab.array("x" + s, (sz("n0", 0, s), sz("n1", 1, s)), kind="i", nonneg=True),), {"multiplier": num(0)}))
    for k in "fi":
        ops[f"psqrt ({k})"] = fn("utils", "psqrt", one(vec("x", k, "n0", "n1")))
    for k in "fc":
        for f in ("easy_fft", "easy_ifft"):
            ops[f"{f} ({k})"] = fn("utils", f, one(vec("x", k, "n0", "n1")))
    for how in ("sum", "mean", "ones"):
        ops[f"bin_ndarray ({how})"] = fn("utils", "bin_ndarray", part(binned, how))
    ops["radial_profile"] = fn("utils", "radial_profile", profile)
    ops["cart2pol"] = fn("utils", "cart2pol", polar)
    ops["slice_maker"] = fn("utils", "slice_maker", window)
    ops["slice_maker (arrays)"] = fn("utils", "slice_maker", lambda lab, s: ((lab.array("xs" + s, (P.as_poly(2),), kind="i"), lab.array("ws" + s, (P.as_poly(2),), kind="i", nonneg=True)), {}))
    ops["noll2degrees (list)"] = fn("zernike", "noll2degrees", noll_list((1, 5, 12, 3), (2, 7)))
    ops["noll2degrees (array)"] = fn("zernike", "noll2degrees", lambda lab, s: ((iarr(lab, *((2, 8, 9) if s else (1, 5, 12, 3))),), {}))
    ops["degrees2noll (lists)"] = fn("zernike", "degrees2noll", lambda lab, s: ((ilist(lab, 2, 3, 4), ilist(lab, *((0, 3, -4) if s else (2, -1, 0)))), {}))
    ops["degrees2noll (arrays)"] = fn("zernike", "degrees2noll", lambda lab, s: ((iarr(lab, 2, 3, 4), iarr(lab, *((0, 3, -4) if s else (2, -1, 0)))), {}))
    for how in ("noll list", "noll", "degrees"):
        ops[f"zernike ({how})"] = fn("zernike", "zernike", part(zern, how))
    for form in ("array", "integer array", "list", "number"):
        for how in ("constructor", "assigned", "assigned after reading"):
            if thorough or form in ("array", "list") or how == "constructor":
                ops[f"HanserPSF, zrange {form} ({how})"] = part(hanser, form, how)
    ops["SheppardPSF"] = sheppard
    for cond in ("none", "sine", "herschel"):
        for vc in ("none", "total") + (("z", "x") if thorough else ()):
            for k in "fc":
                if thorough or (vc == "none" or cond == "none"):
                    ops[f"apply_pupil ({cond}, {vc}, {k})"] = part(pupil, cond, vc, k)
    ops["apply_aberration"] = part(aberrate)
    ops["apply_named_aberrations"] = part(aberrate_named, (4, 6, 11))
    ops["apply_named_aberrations (all)"] = part(aberrate_named, tuple(sorted(NAMES)))
    for cls in ("WidefieldMicroscope", "ConfocalMicroscope", "ApotomeMicroscope", "SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope"):
        for ori in ("list", "array") if cls in ("SIM2DMicroscope", "SIM3DMicroscope") else (None,):
            ops[f"{cls}{f' (orientations {ori})' if ori else ''}"] = part(scope, cls, False, ori)
    for cls in ("WidefieldMicroscope", "ConfocalMicroscope"):
        ops[f"{cls} (zrange)"] = part(scope, cls, True, None)
    for k in "fi":
        for po in (False, True):
            ops[f"retrieve_phase ({k}, phase_only {po})"] = part(retrieve, k, po)
    for full in (True, "zrange"):
        ops[f"retrieve_phase (params of a whole model{', zrange' if full == 'zrange' else ''})"] = lambda lab, s, full=full: retrieve("f", False, lab, s, full)
    ops["PhaseRetrievalResult.fit_to_zernikes"] = part(on_result, "fit_to_zernikes", lambda lab, s, kw: ((num(6 if s else 4),), {}), ("mcoefs", "pcoefs", "zerns"))
    for name in ("generate_psf", "generate_zd_psf"):
        ops["PhaseRetrievalResult." + name] = part(on_result, name, lambda lab, s, kw: ((), {}), (None,))
        ops[f"PhaseRetrievalResult.{name} (zrange)"] = part(on_result, name, lambda lab, s, kw: ((), {"zrange": positions(lab, s, "array")}), (None,))
        ops[f"PhaseRetrievalResult.{name} (padded)"] = part(on_result, name, lambda lab, s, kw: ((), {"size": intv(kw["size"].term + 4)}), (None,))
        ops[f"PhaseRetrievalResult.{name} (cropped)"] = part(on_result, name, lambda lab, s, kw: ((), {"size": intv(kw["size"].term - 2)}), (None,))
    for name in ("complex_pupil", "plot", "plot_convergence"):
        ops["PhaseRetrievalResult." + name] = part(on_result, name, lambda lab, s, kw: ((), {}), (None,) if name == "complex_pupil" else ())
    sl = lambda a: SliceV(num(a), None, None)
    ops["ZernikeDecomposition.mag"] = part(on_zd, "mag", lambda: {"s": sl(1)})
    ops["ZernikeDecomposition.phase"] = part(on_zd, "phase", lambda: {"s": sl(0)})
    ops["ZernikeDecomposition.complex_pupil"] = part(on_zd, "complex_pupil", lambda: {"sphase": sl(3)})
    for name in ("plot", "plot_coefs"):
        ops["ZernikeDecomposition." + name] = part(on_zd, name, dict)
    for name in ("psf_plot", "otf_plot"):
        ops[name] = fn("display", name, part(figure, name))
    for form in ("array", "nested lists"):
        ops[f"labview ({form})"] = part(wrapper, form)
    return ops


# ------------------------------------------------------------------ rules
def reads(rep, rule, lab, label, case, o, quiet=False):
    """What can be read from the result: name -> value."""
    vals = {}
    for at in case.outs:
        if at is None:
            vals["result"] = o.value
            continue
        g = lab.get(o.value, at)
        if g.ok:
            vals[at] = g.value
        elif not quiet:
            rep.undecided(rule, f"{label}: {at}", g.why)
    return vals


def leaves(lab, v, at="result"):
    v = lab.I.res(v)
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            yield from leaves(lab, x, f"{at}[{i}]")
    elif isinstance(v, Cond):
        yield from leaves(lab, v.a, at)
        yield from leaves(lab, v.b, at)
    else:
        yield at, v


def clobber(lab, v):
    """Overwrite everything in a container or array of the caller."""
    I = lab.I
    v = I.res(v)
    if isinstance(v, Arr):
        new = I.binop("Add", I.binop("Mult", v, num(3)), num(1))
        I.setitem(v, Ellipsis, new)
    elif isinstance(v, ListRef):
        c = I.cell(v)
        if isinstance(c.items, tuple):
            for i, x in enumerate(c.items):
                x = I.res(x)
                if isinstance(x, Ref):
                    clobber(lab, x)
                else:
                    I.setitem(v, num(i), I.binop("Add", x, num(1)))
    elif isinstance(v, DictRef):
        for k, x in list(I.cell(v).d.items()):
            x = I.res(x)
            if isinstance(x, Ref):
                clobber(lab, x)
            else:
                I.setitem(v, k, "none" if isinstance(x, str) else I.binop("Mult", x, num(F(1, 2))))


def forget(lab):
    lab.I.events.clear()
    lab.I._evkeys.clear()


def same(rep, rule, label, lab, a, b, samples):
    a, b = lab.I.res(a), lab.I.res(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            same(rep, rule, f"{label}[{i}]", lab, x, y, samples)
    elif isinstance(a, SliceV) and isinstance(b, SliceV):
        for n in "abc":
            x, y = getattr(a, n), getattr(b, n)
            if (x is None) != (y is None):
                rep.bad(rule, label, "bounds given only once")
            elif x is not None:
                compare(rep, rule, label, lab, x, y, samples)
    elif isinstance(a, (ExtObj, type(None), str)):
        pass
    else:
        compare(rep, rule, label, lab, a, b, samples)


def newlab():
    lab = Lab()
    lab.np = lab.g("otf", "np")
    return lab


def ownership(rep, label, mk):
    lab = newlab()
    c = mk(lab, "")
    given = {k: v for k, v in c.args.items() if isinstance(lab.I.res(v), Ref)}
    for k, v in given.items():
        lab.own(v, f"the caller's {k}")
    forget(lab)
    o = c.call()
    if not o.ok:
        # validity of the call itself is the business of other properties
        rep.undecided("nothing the caller passes is written to", label, o.why)
        return
    vals = reads(rep, "nothing the caller passes is written to", lab, label, c, o)
    check_mutations(rep, "nothing the caller passes is written to", lab, label)
    forget(lab)
    # writing to what was returned must not reach what was passed
    rule = "results share no storage with arguments"
    for at, v in vals.items():
        for nm, x in leaves(lab, v, at):
            if not isinstance(x, (Arr, ListRef, DictRef)):
                continue
            forget(lab)
            w = lab.run(lambda: clobber(lab, x))
            if not w.ok:
                rep.undecided(rule, f"{label}: {nm}", w.why)
                continue
            check_mutations(rep, rule, lab, f"{label}: {nm}")
    rep.seen(lab)
    if not given or not c.outs:
        return
    # writing to what was passed must not reach results, whether they were read before or are read afterwards
    rule = "results do not follow later changes of the arguments"
    for before in (False, True):
        lab = newlab()
        c, c2 = mk(lab, ""), mk(lab, "")
        o, o2 = c.call(), c2.call()
        if not (o.ok and o2.ok):
            rep.undecided(rule, label, (o if not o.ok else o2).why)
            return
        held = reads(rep, rule, lab, label, c, o, True) if before else {}
        for v in [v for k, v in c.args.items() if isinstance(lab.I.res(v), Ref)]:
            w = lab.run(lambda: clobber(lab, v))
            if not w.ok:
                rep.undecided(rule, label, w.why)
                return
        after, want = reads(rep, rule, lab, label, c, o), reads(rep, rule, lab, label, c2, o2, True)
        for at in want:
            if at in held:
                same(rep, rule, f"{label}: {at} read before", lab, held[at], want[at], MS)
            if at in after and not (None in c.outs and at in held):
                same(rep, rule, f"{label}: {at}{' read again' if before else ''}", lab, after[at], want[at], MS)
        if None in c.outs:
            break
    rep.seen(lab)


def c03(rep, thorough):
    for label, mk in operations(thorough).items():
        rep.spawn(ownership, label, mk)


# ------------------------------------------------------------------ nothing is remembered
class Only:
    """Suffix that changes one symbol only; true if it changes the options."""

    def __init__(self, name=None):
        self.name, self.names = name, []

    def __radd__(self, x):
        if x not in self.names:
            self.names.append(x)
        return x + "2" if x == self.name else x

    def __bool__(self):
        return self.name == "options"


def frozen_reads(rep, rule, lab, label, c, o):
    return {k: frozen(lab, v) for k, v in reads(rep, rule, lab, label, c, o, True).items()}


def effects(rep, lab, label):
    rule = "no randomness, environment or files are used and no process-wide state is changed"
    ev = [e for e in lab.I.events if e.kind in ("rng", "io", "global") and not str(e.data).startswith(("time.", "datetime."))]
    for e in ev:
        rep.bad(rule, label, f"{e.msg} at {fmt_loc(e.loc)}")
    if not ev:
        rep.ok(rule, label)


def drawing(lab, start):
    """The drawing calls recorded from number start on, with their arguments."""
    from .plotprops import frozen as at_record

    def plain(r, v):
        v = lab.I.res(v)
        if isinstance(v, ListRef):
            v = tuple(lab.I.cell(v).items or ())
        if isinstance(v, DictRef):
            v = tuple(x for kv in lab.I.cell(v).d.items() for x in kv)
        if isinstance(v, tuple):
            return tuple(plain(r, x) for x in v)
        return at_record(lab, r, lambda: v)

    out = []
    for r in getattr(lab.I, "extlog", [])[start:]:
        if r.path.split(".")[0] not in ("matplotlib", "mpl_toolkits"):
            continue
        s0 = lab.I.st
        lab.I.st = r.st.copy()
        for i, c in s0.heap.items():
            lab.I.st.heap.setdefault(i, c)
        try:
            args = tuple(plain(r, a) for a in r.args)
            kw = {k: plain(r, v) for k, v in r.kwargs.items()}
        finally:
            lab.I.st = s0
        out.append((r.path, args, kw))
    return out


def same_drawing(rep, rule, label, lab, a, b):
    if [x[0] for x in a] != [x[0] for x in b]:
        if len(a) != len(b) and (not a or not b):
            rep.bad(rule, label, f"{len(a)} drawing calls instead of {len(b)}")
        else:
            rep.undecided(rule, label, "different drawing calls")
        return

    def one(lb, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for u, v in zip(x, y):
                one(lb, u, v)
        elif isinstance(x, str) and isinstance(y, str):
            (rep.ok if x == y else rep.bad)(rule, lb, "" if x == y else f"{x!r} instead of {y!r}")
        elif isinstance(x, AV) and isinstance(y, AV):
            compare(rep, rule, lb, lab, x, y, MS)
        elif isinstance(x, (AV, str)) and isinstance(y, (AV, str, type(None))) or isinstance(y, (AV, str)) and x is None:
            rep.bad(rule, lb, f"{describe_v(x)} instead of {describe_v(y)}")

    for i, ((p, xa, xk), (_, ya, yk)) in enumerate(zip(a, b)):
        lb = f"{label}: {p.split('.')[-1]}"
        if set(xk) != set(yk) or len(xa) != len(ya):
            rep.bad(rule, lb, f"called with {len(xa)} arguments and {sorted(xk)} instead of {len(ya)} and {sorted(yk)}")
            continue
        one(lb, xa, ya)
        for k in sorted(xk):
            one(f"{lb} {k}", xk[k], yk[k])


def marks(lab):
    return len(getattr(lab.I, "extlog", []))


def repeated(rep, label, mk, vary):
    rule1, rule2, rule3 = ("repeating a call gives the same result", "a call is not influenced by other calls", "results are not influenced by later calls")
    lab = newlab()
    c = mk(lab, Only(vary))
    o = c.call()
    if not o.ok:
        rep.undecided(rule2, f"{label}, other {vary}", o.why)
        return
    alone = frozen_reads(rep, rule2, lab, label, c, o)
    alone_drawn = drawing(lab, 0)
    lab = newlab()
    forget(lab)
    c1 = mk(lab, Only())
    o1 = c1.call()
    if not o1.ok:
        rep.undecided(rule1, label, o1.why)
        return
    held = reads(rep, rule1, lab, label, c1, o1)
    first = {k: frozen(lab, v) for k, v in held.items()}
    effects(rep, lab, label)
    first_drawn, n2 = drawing(lab, 0), marks(lab)
    c2 = mk(lab, Only(vary))
    o2 = c2.call()
    if not o2.ok:
        rep.undecided(rule2, f"{label}, other {vary}", o2.why)
        return
    other = frozen_reads(rep, rule2, lab, label, c2, o2)
    for k in other:
        same(rep, rule2, f"{label}: {k}, other {vary}", lab, other[k], alone[k], MS)
    if alone_drawn or marks(lab) > n2:
        same_drawing(rep, rule2, f"{label}, other {vary}", lab, drawing(lab, n2), alone_drawn)
    n3 = marks(lab)
    for k in held:
        same(rep, rule3, f"{label}: {k}, other {vary}", lab, frozen(lab, held[k]), first[k], MS)
    c3 = mk(lab, Only())
    o3 = c3.call()
    if not o3.ok:
        rep.bad(rule1, label, f"raises when repeated: {o3.why}") if o3.status == "raises" else rep.undecided(rule1, label, o3.why)
        return
    if first_drawn or marks(lab) > n3:
        same_drawing(rep, rule1, f"{label}, after other {vary}", lab, drawing(lab, n3), first_drawn)
    if None not in c.outs:
        # a second object is made and read before the first is read
        c4 = mk(lab, Only(vary))
        o4 = c4.call()
        if o4.ok:
            again = frozen_reads(rep, rule2, lab, label, c4, o4)
            for k in again:
                same(rep, rule2, f"{label}: {k}, other {vary}, repeated", lab, again[k], alone[k], MS)
    last = frozen_reads(rep, rule1, lab, label, c3, o3)
    for k in last:
        same(rep, rule1, f"{label}: {k}, after other {vary}", lab, last[k], first[k], MS)
    rep.seen(lab)


def c23(rep, thorough):
    for label, mk in operations(thorough).items():
        s = Only()
        lab = newlab()
        try:
            mk(lab, s)
        except Exception:
            pass
        for vary in s.names + ["options"]:
            rep.spawn(repeated, label, mk, vary)


CHECKS = {"C03": c03, "C23": c23}
