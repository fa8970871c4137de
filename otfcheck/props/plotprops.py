"""Properties of the figures (pyotf.display and the plot methods)."""
import re

from ..check import *
from .psfmodels import check_mutations, tag

DS = Samples()
# stacks wider than the window that plots are cropped to
WIDE = Samples(n=2, sizes={"zsize": [149, 117], "nz": [149, 118]}, grid={0: [90, 86], 1: [91, 87], None: [90, 87]})
PLANES = ("XY", "YZ", "XZ")


def drawn(lab):
    spec(lab, "retrieval", "as_array")
    return list(getattr(lab.I, "extlog", []))


def leaf(r):
    return r.path.split(".")[-1]


def plane_of(title):
    m = re.search(r"[XYZ]{2}", title) if isinstance(title, str) else None
    return m.group(0) if m else None


def titles(lab, recs):
    """Axes -> title text."""
    d = {}
    for r in recs:
        if leaf(r) == "set_title" and r.obj is not None:
            t = lab.I.res(r.args[0] if r.args else r.kwargs.get("label"))
            d.setdefault(r.obj, set()).add(t)
        elif leaf(r) == "set" and "title" in r.kwargs and r.obj is not None:
            d.setdefault(r.obj, set()).add(lab.I.res(r.kwargs["title"]))
    return {a: next(iter(t)) for a, t in d.items() if len(t) == 1}


def panels(lab, recs, name=plane_of):
    """Plane -> records made on its axes."""
    t = {a: name(x) for a, x in titles(lab, recs).items()}
    out = {}
    for r in recs:
        p = t.get(r.obj) if r.obj is not None else None
        if p is not None:
            out.setdefault(p, []).append(r)
    return out


def seq(lab, v, n=None):
    v = lab.I.res(v)
    if isinstance(v, ListRef):
        v = lab.I.cell(v).items
    if isinstance(v, (Arr, AV)):
        o = lab.run(lambda: tuple(lab.I.getitem(v, num(j)) for j in range(n or 4)))
        v = o.value if o.ok else None
    return v if isinstance(v, tuple) and (n is None or len(v) == n) else None


def vec(lab, items):
    """A vector of the numbers in a sequence."""
    if items is None:
        return None
    o = refcall(lab, "retrieval", "as_array", lab.I.new_list(list(items)))
    return o.value if o.ok else None


def frozen(lab, r, f):
    """The value f() has in the state in which record r was made, free of references into that state."""
    def walk(v):
        v = lab.I.res(v)
        if isinstance(v, Cond):
            return Cond(v.c, walk(v.a), walk(v.b))
        if isinstance(v, Arr):
            a = lab.av(v)
            return v if a is None else a
        return v

    s0 = lab.I.st
    if r.st is not s0:
        lab.I.st = r.st.copy()
        for i, c in s0.heap.items():
            lab.I.st.heap.setdefault(i, c)
    try:
        return walk(f())
    finally:
        lab.I.st = s0


def under(lab, r, f):
    """Run f under the conditions on which record r was made."""
    s0 = lab.I.st
    for c, t in r.st.path:
        if lab.I.known(c) is None:
            lab.I.st = lab.I.st.assume(c, t)
    try:
        return f()
    finally:
        lab.I.st = s0


def value_of(rep, rule, label, o):
    if o.ok:
        return o.value
    rep.undecided(rule, label, o.why)
    return None


def images(rep, lab, label, recs, ims, exts, rules, samples=None):
    """Every plane is shown, by one image with the expected data and extents."""
    ps = panels(lab, recs)
    for i, plane in enumerate(PLANES):
        lb = f"{label}: {plane}"
        shows = [r for r in ps.get(plane, ()) if leaf(r) in ("imshow", "matshow")]
        if not shows:
            rep.undecided(rules[0], lb, "no image on an axes with this title")
            continue
        for r in shows:
            im = frozen(lab, r, lambda: r.args[0] if r.args else r.kwargs.get("X"))
            e = frozen(lab, r, lambda: vec(lab, seq(lab, r.kwargs.get("extent"), 4)))
            w = vec(lab, seq(lab, exts[i], 4))

            def one():
                compare(rep, rules[0], lb, lab, im, ims[i], samples or DS)
                if e is None:
                    rep.undecided(rules[1], lb, "extent not found")
                elif r.kwargs.get("origin") is not None:
                    rep.undecided(rules[1], lb, "origin given")
                else:
                    compare(rep, rules[1], lb, lab, e, w, samples or DS)

            under(lab, r, one)
    return ps


def norm_of(lab, recs, r):
    """The record of the constructor of the norm used for an image."""
    n = lab.I.res(r.kwargs.get("norm"))
    for q in recs:
        if q.result is not None and isinstance(n, ExtObj) and q.result == n:
            return q
    return None


def scaling(rep, rule, label, lab, recs, kind, want, other):
    """All images share the intensity scale asked for, and the remaining keywords."""
    ps = panels(lab, recs)
    for plane in PLANES:
        for r in ps.get(plane, ()):
            if leaf(r) not in ("imshow", "matshow"):
                continue
            lb = f"{label}: {plane}"
            q = norm_of(lab, recs, r)
            if q is None or leaf(q) != kind:
                rep.undecided(rule, lb, "norm not found")
                continue
            sig = {"PowerNorm": ("gamma", "vmin", "vmax"), "LogNorm": ("vmin", "vmax")}[kind]
            got = dict(zip(sig, q.args))
            got.update(q.kwargs)
            for k, w in want.items():
                g = lab.I.res(got.get(k))
                if w is None or g is None:
                    (rep.ok if w is g else rep.bad)(rule, f"{lb}: {k}", "" if w is g else f"{describe_v(g)} instead of {describe_v(w)}")
                else:
                    compare(rep, rule, f"{lb}: {k}", lab, g, w, DS)
            both = [k for k in ("vmin", "vmax") if lab.I.res(r.kwargs.get(k)) is not None]
            if both:
                rep.bad(rule, lb, f"{both} given together with a norm, which matplotlib refuses")
            for k, w in other.items():
                g = lab.I.res(r.kwargs.get(k))
                (rep.ok if g == w else rep.bad)(rule, f"{lb}: {k}", "" if g == w else f"{describe_v(g)} instead of {w!r}")


def place(rep, rule, label, lab, recs, fig, loc, ret):
    """The grid is made in the given figure, at the given place, and figure and axes are returned."""
    grids = [r for r in recs if leaf(r) == "ImageGrid"]
    if len(grids) != 1:
        rep.undecided(rule, label, f"{len(grids)} grids")
        return
    g = grids[0]
    got = dict(zip(("fig", "rect"), g.args))
    got.update(g.kwargs)
    f = lab.I.res(got.get("fig"))
    if fig is not None:
        (rep.ok if f == fig else rep.bad)(rule, f"{label}: figure", "" if f == fig else "drawn elsewhere")
    if loc is not None:
        compare(rep, rule, f"{label}: place", lab, got.get("rect"), loc, DS)
    r = lab.I.res(ret)
    if isinstance(r, tuple) and len(r) == 2:
        good = lab.I.res(r[0]) == f and lab.I.res(r[1]) == g.result
        (rep.ok if good else rep.bad)(rule, f"{label}: returned", "" if good else describe_v(r))
    else:
        rep.undecided(rule, f"{label}: returned", describe_v(r))


def psf_figure(rep, mip, opts, given, pars):
    lab = Lab()
    z, y, x = (isym(s, 8 + p, p) for s, p in zip(("n0", "n1", "n2"), pars))
    psf = lab.array("psf", (z, y, x), nonneg=True)
    lab.own(psf, "the caller's PSF")
    zres, res = fl("zres", 1), fl("res", 1)
    kw, want, other = {}, dict(gamma=num(F(1, 2)), vmin=None, vmax=None), dict(interpolation="nearest", cmap="inferno")
    if opts == "scaling":
        kw = want = dict(gamma=fl("gam"), vmin=fl("vmin"), vmax=fl("vmax"))
    elif opts == "vmax, cmap":
        kw = dict(vmax=fl("vmax"), cmap="gray", alpha="half")
        want, other = dict(want, vmax=kw["vmax"]), dict(other, cmap="gray", alpha="half")
    elif opts == "interpolation":
        kw = other = dict(interpolation="bicubic")
    if mip is not None:
        kw = dict(kw, mip=boolv(mip))
    fig, loc = (ExtObj("matplotlib.figure.Figure", uid="given"), num(122)) if given else (None, None)
    label = f"psf_plot({'default' if mip is None else 'mip' if mip else 'slices'}, {opts}{', figure given' if given else ''}), sizes {pars}"
    o = lab.call(lab.g("display", "psf_plot"), psf, zres=zres, res=res, **kw, **({"fig": fig, "loc": loc} if given else {}))
    if not rep.need("psf_plot completes", label, o):
        return
    recs = drawn(lab)
    ims = refcall(lab, "plots", "central" if mip is False else "projections", psf)
    exts = refcall(lab, "plots", "extents", tuple(intv(n) for n in (z, y, x)), zres, res, res)
    if not ims.ok or not exts.ok:
        rep.undecided("reference", label, ims.why or exts.why)
        return
    images(rep, lab, label, recs, ims.value, exts.value, ("each panel shows the plane in its title", "each panel spans the coordinates of its first and last samples"))
    scaling(rep, "images use the scaling and options asked for", label, lab, recs, "PowerNorm", want, other)
    place(rep, "the figure is drawn where asked and returned", label, lab, recs, fig, loc, o.value)
    check_mutations(rep, "plotting leaves the data alone", lab, label)
    rep.seen(lab)


def otf_figure(rep, opts, given, pars, rule_set):
    lab = Lab()
    z, y = (isym(s, 8 + p, p) for s, p in zip(("n0", "n1"), pars))
    otf = lab.array("psf", (z, y, y), nonneg=True)
    lab.own(otf, "the caller's OTF")
    par = dict(na=fl("na"), ni=fl("ni"), wl=fl("wl", 1), zres=fl("zres", 1), res=fl("res", 1))
    kw, want, other = {}, dict(vmin=None, vmax=None), dict(interpolation="nearest", cmap="inferno")
    if opts == "scaling":
        kw = want = dict(vmin=fl("vmin"), vmax=fl("vmax"))
    elif opts == "vmin, cmap":
        kw = dict(vmin=fl("vmin"), cmap="gray", alpha="half")
        want, other = dict(want, vmin=kw["vmin"]), dict(other, cmap="gray", alpha="half")
    fig, loc = (ExtObj("matplotlib.figure.Figure", uid="given"), num(122)) if given else (None, None)
    label = f"otf_plot({opts}{', figure given' if given else ''}), sizes {pars}"
    o = lab.call(lab.g("display", "otf_plot"), otf, **par, **kw, **({"fig": fig, "loc": loc} if given else {}))
    if not rep.need("otf_plot completes", label, o):
        return
    recs = drawn(lab)
    if rule_set == "panels":
        ims = refcall(lab, "plots", "central", otf)
        exts = refcall(lab, "plots", "fourier_extents", tuple(intv(n) for n in (z, y, y)), par["zres"], par["res"])
        if not ims.ok or not exts.ok:
            rep.undecided("reference", label, ims.why or exts.why)
            return
        images(rep, lab, label, recs, ims.value, exts.value, ("each panel shows the plane in its title", "each panel spans the frequencies of its first and last samples"))
        scaling(rep, "images use the scaling and options asked for", label, lab, recs, "LogNorm", want, other)
        place(rep, "the figure is drawn where asked and returned", label, lab, recs, fig, loc, o.value)
    else:
        overlay(rep, label, lab, recs, par)
    check_mutations(rep, "plotting leaves the data alone", lab, label)
    rep.seen(lab)


def patch_on(lab, recs, rs, kind):
    """Constructor records of the patches of a kind added to an axes."""
    out = []
    for r in rs:
        if leaf(r) in ("add_patch", "add_artist"):
            a = lab.I.res(r.args[0]) if r.args else None
            for q in recs:
                if isinstance(a, ExtObj) and q.result is not None and q.result == a and leaf(q) == kind:
                    out.append((r, q))
    return out


def args_of(q, names):
    d = dict(zip(names, q.args))
    d.update(q.kwargs)
    return d


def overlay(rep, label, lab, recs, par):
    ps = panels(lab, recs)
    rule = "the XY panel has the circle of the lateral support"
    cs = patch_on(lab, recs, ps.get("XY", ()), "Circle")
    if len(cs) != 1:
        (rep.bad if "XY" in ps and not cs else rep.undecided)(rule, label, f"{len(cs)} circles")
    else:
        d = args_of(cs[0][1], ("xy", "radius"))
        want = AV((), "f", F(-1), P.as_poly(2) * par["na"].term / par["wl"].term, pt="float")
        compare(rep, rule, f"{label}: centre", lab, vec(lab, seq(lab, d.get("xy"), 2)), vec(lab, [num(0), num(0)]), DS)
        compare(rep, rule, f"{label}: radius", lab, d.get("radius"), want, DS)
    rule = "the axial panels have the arcs that bound the axial support"
    for plane in ("XZ", "YZ"):
        lb = f"{label}: {plane}"
        cs = patch_on(lab, recs, ps.get(plane, ()), "Wedge")
        if len(cs) != 4:
            (rep.bad if plane in ps and not cs else rep.undecided)(rule, lb, f"{len(cs)} arcs")
            continue
        ref = refcall(lab, "plots", "arc_keys", par["na"], par["ni"], par["wl"], boolv(plane == "YZ"))
        want = seq(lab, ref.value) if ref.ok else None
        if want is None or len(want) != 4:
            rep.undecided(rule, lb, "reference")
            continue
        left = list(want)
        for r, q in cs:
            d = args_of(q, ("center", "r", "theta1", "theta2"))
            c = seq(lab, d.get("center"), 2)
            k = refcall(lab, "plots", "arc_key", c, d.get("r"), d.get("theta1"), d.get("theta2")) if c else None
            if k is None or not k.ok:
                rep.undecided(rule, lb, k.why if k else "centre")
                continue
            got = vec(lab, k.value)
            res = [(relate(lab, got, vec(lab, seq(lab, w)), DS), w) for w in left]
            hit = next((w for x, w in res if x[0] == "ok"), None)
            if hit is not None:
                left.remove(hit)
                rep.ok(rule, f"{lb} arc")
            elif any(x[0] == "unknown" for x, w in res):
                rep.undecided(rule, f"{lb} arc", next(x[1] for x, w in res if x[0] == "unknown"))
            else:
                rep.bad(rule, f"{lb} arc", f"no expected arc matches: {res[0][0][1]}" if res else "an arc twice")


def spans(rep, p):
    """max_min and fft_max_min, all sizes of one parity."""
    lab = Lab()
    n, d = isz("n0", 1 + (1 - p), p), fl("res", 1)
    label = f"size {'odd' if p else 'even'}"
    for f, arg in (("max_min", d), ("fft_max_min", d)):
        o = lab.call(lab.g("display", f), n, arg)
        if not rep.need(f"{f} completes", label, o):
            continue
        step = arg if f == "max_min" else AV((), "f", F(-1), P.as_poly(1) / (d.term * n.term), pt="float")
        ref = refcall(lab, "plots", "span", n, step)
        if ref.ok and isinstance(lab.I.res(ref.value), tuple):
            g = seq(lab, o.value, 2)
            if g is None:
                rep.undecided("extents are the coordinates of the first and last sample", f"{f}, {label}", describe_v(o.value))
            else:
                compare(rep, "extents are the coordinates of the first and last sample", f"{f}, {label}", lab, vec(lab, g), vec(lab, seq(lab, ref.value, 2)), DS)
    rep.seen(lab)


def squeezes(rep):
    for form in ("different", "same"):
        lab = Lab()
        n1 = fl("idx1")
        n2 = n1 if form == "same" else fl("idx2")
        na = fl("ap")
        o, ref = lab.call(lab.g("display", "z_squeeze"), n1, n2, na), refcall(lab, "plots", "squeeze", n1, n2, na)
        label = f"z_squeeze, {form} indices"
        if rep.need("z_squeeze completes", label, o):
            if ref.ok:
                compare(rep, "z_squeeze is the ratio of the marginal rays' focal shifts", label, lab, o.value, ref.value, DS)
            else:
                rep.undecided("z_squeeze is the ratio of the marginal rays' focal shifts", label, ref.why)
        rep.seen(lab)


def c36(rep, thorough):
    for pars in ((1, 0), (0, 1)) if not thorough else ((0, 0), (0, 1), (1, 0), (1, 1)):
        for given in (False, True):
            rep.spawn(otf_figure, "default", given, pars, "overlay")
    for p in (0, 1):
        rep.spawn(spans, p)
    rep.spawn(squeezes)


def of_object(rep, cls, which, opts, p, wide=False):
    """plot_psf and plot_otf of models and microscopes."""
    from .microprops import mk_micro

    lab = Lab()
    zstep = None
    if cls in ("HanserPSF", "SheppardPSF"):
        kw = psf_kw("odd", p, vec_corr="none", condition="none", zsize=isz("zsize", 5, 1))
        if "zrange" in opts:
            zstep = fl("zres2", 1)
            sign = num(-1 if "decreasing" in opts else 1)
            z = refcall(lab, "plots", "ramp", fl("z0", 1, pos=False), lab.I.binop("Mult", sign, zstep), isz("nz", 5))
            if not z.ok:
                rep.undecided("reference", cls, z.why)
                return
            kw["zrange"] = z.value
        o = make(lab, cls, kw)
        res, names = kw["res"], ("PSFi", "OTFi")
    else:
        kw = micro_kw(p, zres=fl("zres", 1), zsize=size_sym("zsize", "odd"), oversample_factor=num(3 if opts == "oversampled" else 1))
        o = mk_micro(lab, cls, kw)
        res, names = kw["pixel_size"], ("PSF", "OTF")
    label = f"{cls}.plot_{which}({opts}), size {p}{', large' if wide else ''}"
    if not rep.need("constructor completes", label, o):
        return
    par = {k: kw[k] for k in ("wl", "na", "ni", "zres")}
    if zstep is not None:
        par["zres"] = zstep
    d = lab.get(o.value, names[which == "otf"])
    if not rep.need("output can be read", label, d):
        return
    other = dict(cmap="gray") if opts == "cmap" else {}
    n0 = len(drawn(lab))
    r = lab.meth(o.value, "plot_" + which, **other)
    if not rep.need(f"plot_{which} completes", label, r):
        return
    recs = drawn(lab)[n0:]
    if which == "psf":
        data = refcall(lab, "plots", "view", d.value, par["wl"], par["na"], par["ni"], res, par["zres"])
    else:
        data = refcall(lab, "plots", "magnitude", d.value)
    if not data.ok:
        rep.undecided("reference", label, data.why)
        return
    ims = refcall(lab, "plots", "projections" if which == "psf" else "central", data.value)
    a = lab.av(data.value)
    sh = tuple(intv(s) for s in a.shape) if a is not None and a.shape is not None else None
    if not ims.ok or sh is None:
        rep.undecided("reference", label, ims.why or describe_v(data.value))
        return
    exts = refcall(lab, "plots", "extents", sh, par["zres"], res, res) if which == "psf" else refcall(lab, "plots", "fourier_extents", sh, par["zres"], res)
    if not exts.ok:
        rep.undecided("reference", label, exts.why)
        return
    images(rep, lab, label, recs, ims.value, exts.value, samples=WIDE if wide else None, rules=("plots of an object show its own data", "plots of an object are scaled by its own sample distances"))
    scaling(rep, "images use the scaling and options asked for", label, lab, recs, "PowerNorm" if which == "psf" else "LogNorm",
            dict(gamma=num(F(1, 2)), vmin=None, vmax=None) if which == "psf" else dict(vmin=num(F(1, 10000)), vmax=None), dict(dict(interpolation="nearest", cmap="inferno"), **other))
    if which == "otf":
        overlay(rep, label, lab, recs, dict(par, res=res))
    rep.seen(lab)


def c21(rep, thorough):
    pp = ((1, 0, 1), (0, 1, 0)) if not thorough else tuple((a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1))
    for pars in pp:
        for mip in (None, True, False):
            for opts in ("default", "scaling", "vmax, cmap", "interpolation"):
                for given in (False, True):
                    if thorough or opts == "default" or mip is None and not given:
                        rep.spawn(psf_figure, mip, opts, given, pars)
    for pars in ((0, 1), (1, 0)) if not thorough else ((0, 0), (0, 1), (1, 0), (1, 1)):
        for opts in ("default", "scaling", "vmin, cmap"):
            for given in (False, True):
                if thorough or opts == "default" or not given:
                    rep.spawn(otf_figure, opts, given, pars, "panels")
    for cls in ("HanserPSF", "SheppardPSF", "WidefieldMicroscope"):
        for which in ("psf", "otf"):
            for opts in ("default", "cmap", "zrange", "decreasing zrange") if cls == "HanserPSF" else ("default", "cmap", "oversampled") if "Micro" in cls else ("default", "cmap"):
                for p in ("odd", "even"):
                    if thorough or opts == "default" or p == "odd":
                        rep.spawn(of_object, cls, which, opts, p)
    for cls in ("HanserPSF", "SheppardPSF", "WidefieldMicroscope"):
        rep.spawn(of_object, cls, "psf", "default", "odd", True)
        if cls == "HanserPSF":
            rep.spawn(of_object, cls, "psf", "zrange", "even", True)
    for source in ("PhaseRetrievalResult.plot", "ZernikeDecomposition.plot", "ZernikeDecomposition.plot of slices"):
        for given in (False, True):
            rep.spawn(pupil_figure, source, given, "even")
    rep.spawn(retrieval_figures, "plot_convergence")
    for k in (15, 22) if not thorough else (15, 16, 22, 36):
        rep.spawn(retrieval_figures, "plot_coefs", k)
        rep.spawn(retrieval_figures, "plot_named_coefs", k)


# ------------------------------------------------------------------ retrieval figures
def pupil_figure(rep, source, given, par):
    from .prprops import bounds, mk_result

    lab = Lab()
    label = f"{source}{', axes given' if given else ''}, size {par}"
    r, kw, arrs = mk_result(rep, lab, par, label)
    if r is None:
        return
    axs = (ExtObj("matplotlib.axes.Axes", uid="a0"), ExtObj("matplotlib.axes.Axes", uid="a1")) if given else None
    args = {"axs": axs} if given else {}
    if source == "PhaseRetrievalResult.plot":
        mag, ph = arrs
        o = lab.meth(r, "plot", **args)
    else:
        k, n = 6, kw["size"].term
        mc, pc, zs = lab.array("mcf", (P.as_poly(k),)), lab.array("pcf", (P.as_poly(k),)), lab.array("zs", (P.as_poly(k), n, n))
        zd = lab.call(lab.g("phaseretrieval", "ZernikeDecomposition"), mc, pc, zs)
        if not rep.need("ZernikeDecomposition completes", label, zd):
            return
        sm, sp = (0, 3, 1), (4, None, 1)
        if "slices" in source:
            args.update(smag=SliceV(num(0), num(3), None), sphase=SliceV(num(4), None, None))
        else:
            sm = sp = (0, None, 1)
        a, b = refcall(lab, "retrieval", "recon", mc, zs, *bounds(sm, k)), refcall(lab, "retrieval", "recon", pc, zs, *bounds(sp, k))
        if not a.ok or not b.ok:
            rep.undecided("reference", label, a.why or b.why)
            return
        mag, ph = a.value, b.value
        o = lab.meth(zd.value, "plot", **args)
    if not rep.need("plot completes", label, o):
        return
    recs = drawn(lab)
    ps = panels(lab, recs, lambda t: t.split()[-1].lower() if isinstance(t, str) else None)
    rule = "pupil figures show phase and magnitude under their titles"
    hid = refcall(lab, "plots", "hidden", ph, mag)
    for name, want in (("phase", hid.value if hid.ok else None), ("magnitude", mag)):
        lb = f"{label}: {name}"
        shows = [q for q in ps.get(name, ()) if leaf(q) in ("matshow", "imshow")]
        if not shows or want is None:
            rep.undecided(rule, lb, "no image on an axes with this title")
            continue
        for q in shows:
            im = frozen(lab, q, lambda: q.args[0] if q.args else q.kwargs.get("X"))
            if name == "phase":
                w = refcall(lab, "plots", "hidden", im, mag)
                im = w.value if w.ok else im
            under(lab, q, lambda: compare(rep, rule, lb, lab, im, want, DS))
            if name == "phase":
                for at, w in (("vmin", -1), ("vmax", 1)):
                    g = lab.I.res(q.kwargs.get(at))
                    if g is None:
                        rep.undecided("phases are shown on a full turn", f"{lb}: {at}", "limit not found")
                    else:
                        compare(rep, "phases are shown on a full turn", f"{lb}: {at}", lab, g, AV((), "f", F(0), P.as_poly(w) * P.PI, pt="float"), DS)
    if given:
        rule = "figures are drawn on the axes given"
        t = {x: a for a, x in titles(lab, recs).items()}
        for title, w in (("Pupil Phase", axs[0]), ("Pupil Magnitude", axs[1])):
            a = t.get(title)
            (rep.ok if a == w else rep.bad if a is not None else rep.undecided)(rule, f"{label}: {title}", "" if a == w else describe_v(a))
    rep.seen(lab)


def lines(rep, lab, label, recs, kinds, want, rule):
    """Each titled axes shows its data in one curve or bar chart."""
    ps = panels(lab, recs, lambda t: t)
    for title, (x, y) in want.items():
        lb = f"{label}: {title}"
        shows = [r for r in ps.get(title, ()) if leaf(r) in kinds]
        if not shows:
            rep.undecided(rule, lb, "nothing drawn on an axes with this title")
        for r in shows:
            args = [frozen(lab, r, lambda a=a: a) for a in r.args]
            if x is not None and len(args) > 1:
                compare(rep, rule, f"{lb}: positions", lab, args[0], x, DS)
            y2 = args[-1] if args else None
            compare(rep, rule, f"{lb}: values", lab, y2, y, DS)


def retrieval_figures(rep, which, k=None):
    lab = Lab()
    if which == "plot_convergence":
        n = isym("n0", 9)
        r, kw, arrs = None, None, None
        m = make(lab, "HanserPSF", psf_kw("odd", "even", vec_corr="none", condition="none"))
        if not rep.need("constructor completes", which, m):
            return
        sz = lab.get(m.value, "size").value.term
        e, de, dp = (lab.array(s, (n,), nonneg=True) for s in ("mse", "md", "pd"))
        r = lab.call(lab.g("phaseretrieval", "PhaseRetrievalResult"), lab.array("mag", (sz, sz), nonneg=True), lab.array("ph", (sz, sz)), e, dp, de, m.value)
        want = {"Mean Squared Error": (None, e), "Relative Change in MSE": (None, de), "Relative Change in Pupil": (None, dp)}
    else:
        n = isym("n0", 9)
        kk = P.as_poly(k)
        mc, pc, zs = lab.array("mcf", (kk,)), lab.array("pcf", (kk,)), lab.array("zs", (kk, n, n))
        r = lab.call(lab.g("phaseretrieval", "ZernikeDecomposition"), mc, pc, zs)
        x = refcall(lab, "plots", "ramp", num(1), num(1), num(k))
        want = {"Magnitude Coefficients": (x.value, mc), "Phase Coefficients": (x.value, pc)}
    if not rep.need("constructor completes", which, r):
        return
    o = lab.meth(r.value, which)
    label = which + (f" of {k} modes" if k else "")
    if not rep.need(f"{which} completes", label, o):
        return
    recs = drawn(lab)
    rule = "curves and bars show the data in their titles"
    if which != "plot_named_coefs":
        lines(rep, lab, label, recs, ("semilogy", "plot", "bar"), want, rule)
    else:
        from .zernprops import NAMES

        bars = [r for r in recs if leaf(r) == "bar"]
        if len(bars) != 1:
            rep.undecided(rule, label, f"{len(bars)} bar charts")
        else:
            q = bars[0]
            xs, ys = (frozen(lab, q, lambda a=a: a) for a in q.args[:2])
            m = len(NAMES) - 4
            w = refcall(lab, "plots", "ramp", num(5), num(1), num(m))
            compare(rep, rule, f"{label}: positions", lab, xs, w.value, DS)
            y = lab.run(lambda: lab.I.getitem(pc, SliceV(num(4), num(4 + m), None)))
            compare(rep, rule, f"{label}: values", lab, ys, y.value, DS)
            t = seq(lab, q.kwargs.get("tick_label"))
            t = [lab.I.res(x) for x in t] if t is not None else None
            want = [NAMES[j].title() for j in range(5, 5 + m)]
            if t is None or not all(isinstance(x, str) for x in t):
                rep.undecided("bars carry the names of their modes", label, "labels not found")
            else:
                (rep.ok if t == want else rep.bad)("bars carry the names of their modes", label, "" if t == want else str(t))
    rep.seen(lab)


# ------------------------------------------------------------------ focal positions that cannot be plotted
UNEVEN = {
    "the last step larger": (0, 1, 2, F(7, 2)), "one position displaced": (0, 1, F(41, 20), 3), "one position displaced a little": (0, 1, 2, F(2999, 1000), 4, 5),
    "uneven and descending": (0, -1, -2, F(-31, 10)), "three positions": (0, 1, 3), "turning back": (0, 1, 2, 1), "out of order": (0, 3, 1, 2), "a position repeated": (0, 1, 1, 2), "even steps with gaps": (0, 1, 2, 4, 5, 6), "steps of alternating length": (0, 1, 3, 4, 6, 7, 9),
    "geometric": (1, 2, 4, 8, 16), "two positions": (0, 1), "one position": (0,), "opposite steps": (0, 1, 0, 1, 0),
    "a late outlier": tuple(range(11)) + (F(111, 10),), "the first step smaller": (F(1, 10), 1, 2, 3, 4, 5, 6, 7, 8),
}
EVEN = {"ascending": (0, 1, 2, 3), "descending": (4, 3, 2, 1, 0), "three positions": (0, 1, 2), "symmetric": (-2, -1, 0, 1, 2),
        "many": tuple(range(12)), "up to rounding": (0, 1, 2 + F(1, 10**10), 3)}
ZU = {"zu": [1.3e-7, 0.11, 470.0, 2.1e-4], "zs0": [0.0, 0.7, -900.0, 21.0]}
NS = Samples(dict(ZU, nz=[3, 5, 8, 9], by=[0.3, -0.02, 0.9, -0.4]))
SETTINGS = ("constructor", "assigned", "assigned after plotting", "list", "integers")


def zr_value(lab, ratios, how):
    start, step = fl("zs0", 1, pos=False), fl("zu", 1)
    if how == "integers":
        return lab.I.new_list([num(int(r * 1000)) for r in ratios])
    v = [lab.I.binop("Add", start, lab.I.binop("Mult", num(r), step)) for r in ratios]
    v = lab.I.new_list(v)
    if how != "list":
        v = refcall(lab, "retrieval", "as_array", v).value
    return v


def set_positions(rep, lab, label, how, value):
    kw = psf_kw("odd", "even", vec_corr="none", condition="none", zsize=size_sym("zsize", "odd"))
    spec(lab, "plots", "ramp")
    if how in ("constructor", "list", "integers"):
        kw["zrange"] = value
    o = make(lab, "HanserPSF", kw)
    if not rep.need("constructor completes", label, o):
        return None
    if how == "assigned after plotting" and not rep.need("plot_psf completes", label, lab.meth(o.value, "plot_psf")):
        return None
    if how.startswith("assigned") and not rep.need("zrange can be assigned", label, lab.set(o.value, "zrange", value)):
        return None
    return o.value


def refuses(rep, label, lab, o, which, mark):
    """The plot raises RuntimeError before anything is drawn."""
    from .valprops import possible

    rule = "unevenly spaced or too few focal positions are refused"
    n0 = len(drawn(lab))
    r = lab.meth(o, "plot_" + which)
    lb = f"{label}: plot_{which}"
    if r.status == "undecided":
        rep.undecided(rule, lb, r.why)
        return
    if r.status == "ok":
        conds = [(c, t) for c, t in lab.I.st.path if (c, t) not in r.path0]
        got = outcome_at(conds, NS)
        if not conds or any(got):
            rep.bad(rule, lb, "is plotted" + (" when " + ", ".join(f"{P.poly_str(P.as_poly(c))[:160]} is {t}" for c, t in conds[:3]) if conds else ""))
            return
        if not got:
            rep.undecided(rule, lb, "is plotted under a condition the analysis cannot decide")
            return
    excs = [(e, s) for e, s in r.excs if r.status == "raises" and e is r.exc or any(outcome_at([(c, t) for c, t in s.path if (c, t) not in r.path0], NS) or [True])]
    names = sorted({e.name for e, s in excs})
    if names and all(n == "RuntimeError" for n in names):
        rep.ok(rule, lb)
    elif any(n != "RuntimeError" for n in names):
        rep.bad(rule, lb, f"raises {'/'.join(names)}")
    else:
        rep.undecided(rule, lb, "no exception found")
    drew = [q for q in drawn(lab)[n0:] if leaf(q) in ("imshow", "ImageGrid", "figure", "add_patch") and r.status == "raises"]
    rule = "a refused plot draws nothing"
    (rep.bad if drew else rep.ok)(rule, lb, leaf(drew[0]) if drew else "")


def outcome_at(conds, samples):
    """Truth of the conjunction of conds at the sample points where it can be evaluated."""
    out = []
    for i in range(2 * samples.n):
        m = samples.model(i)
        try:
            with np.errstate(all="ignore"):
                out.append(all(bool(abs(m.scalar(P.as_poly(c))) > 0.5) == bool(t) for c, t in conds))
        except Exception:
            pass
    return out


def refuse_zrange(rep, name, how):
    for which in ("psf", "otf"):
        lab = Lab()
        drawn(lab)
        label = f"focal positions {name} ({how})"
        o = set_positions(rep, lab, label, how, zr_value(lab, UNEVEN[name], how))
        if o is None:
            return
        refuses(rep, label, lab, o, which, None)
        rep.seen(lab)


def refuse_bump(rep, where):
    """Any number of positions, one of them displaced."""
    for which in ("psf", "otf"):
        lab = Lab()
        drawn(lab)
        n = isz("nz", 3)
        at = {"first": num(0), "second": num(1), "last": lab.I.binop("Sub", n, num(1))}[where]
        v = refcall(lab, "plots", "bumped", fl("zs0", 1, pos=False), fl("zu", 1), n, at, fl("by", pos=False))
        label = f"any number of focal positions, the {where} one displaced"
        if not v.ok:
            rep.undecided("reference", label, v.why)
            return
        o = set_positions(rep, lab, label, "constructor", v.value)
        if o is None:
            return
        refuses(rep, label, lab, o, which, None)
        rep.seen(lab)


def accept_zrange(rep, name, how):
    rule = "evenly spaced focal positions are plotted"
    for which in ("psf", "otf"):
        lab = Lab()
        drawn(lab)
        label = f"focal positions {name} ({how})"
        o = set_positions(rep, lab, label, how, zr_value(lab, EVEN[name], how))
        if o is None:
            return
        r = lab.meth(o, "plot_" + which)
        accepted(rep, rule, f"{label}: plot_{which}", lab, r)
        rep.seen(lab)


def accepted(rep, rule, lb, lab, r):
    if r.status == "undecided":
        rep.undecided(rule, lb, r.why)
        return
    if r.status == "raises" and not r.path0 and len(r.excs) == 1 and not r.excs[0][1].path:
        rep.bad(rule, lb, f"is refused: {r.why}")
        return
    hit = [e for e, s in r.excs if any(outcome_at([(c, t) for c, t in s.path if (c, t) not in r.path0], NS))]
    if hit:
        rep.bad(rule, lb, f"is refused: {describe_exc(hit[0])}")
    elif r.status == "ok":
        rep.ok(rule, lb)
    else:
        rep.undecided(rule, lb, r.why)


def accept_default(rep, cls, zp, then):
    rule = "evenly spaced focal positions are plotted"
    lab = Lab()
    kw = psf_kw(zp, "even", vec_corr="none", condition="none", zsize=size_sym("zsize", zp))
    o = make(lab, cls, dict(kw, zrange=zr_value(lab, (0, 1, 3, 7), "constructor")) if then else kw)
    label = f"{cls}, zsize {zp}" + (f", uneven positions replaced by assigning {then}" if then else "")
    if not rep.need("constructor completes", label, o):
        return
    if then and not rep.need(f"{then} can be assigned", label, lab.set(o.value, then, fl("zres2", 1) if then == "zres" else size_sym("zsize2", zp))):
        return
    for which in ("psf", "otf"):
        accepted(rep, rule, f"{label}: plot_{which}", lab, lab.meth(o.value, "plot_" + which))
    rep.seen(lab)


def short_default(rep, n):
    for which in ("psf", "otf"):
        lab = Lab()
        drawn(lab)
        kw = dict(psf_kw("odd", "even", vec_corr="none", condition="none"), zsize=num(n))
        o = make(lab, "HanserPSF", kw)
        label = f"zsize {n}"
        if rep.need("constructor completes", label, o):
            refuses(rep, label, lab, o.value, which, None)
        rep.seen(lab)


def c22(rep, thorough):
    for name in UNEVEN:
        for how in SETTINGS if thorough else ("constructor", "assigned after plotting", "integers"):
            rep.spawn(refuse_zrange, name, how)
    for name in EVEN:
        for how in SETTINGS if thorough else ("constructor", "assigned after plotting", "integers"):
            if not (how == "integers" and name == "up to rounding"):
                rep.spawn(accept_zrange, name, how)
    for where in ("first", "second", "last"):
        rep.spawn(refuse_bump, where)
    for cls in ("HanserPSF", "SheppardPSF"):
        for zp in ("odd", "even"):
            for then in (None, "zres", "zsize") if cls == "HanserPSF" else (None,):
                rep.spawn(accept_default, cls, zp, then)
    for n in (1, 2):
        rep.spawn(short_default, n)


VALS.update(ZU)
VALS.update(idx1=[1.33, 1.51, 1.0, 1.27], idx2=[1.51, 1.2, 1.33, 1.4], ap=[1.2, 1.3, 1.1, 1.35])
CHECKS = {"C21": c21, "C22": c22, "C36": c36}
