"""Properties of phase retrieval (pyotf.phaseretrieval, pyotf.labview)."""
from ..check import *
from .aberprops import degs
from .psfmodels import check_mutations, expect_shape
from .utilprops import US

TOLS = {"pt": [1.1e-9, 1.7e-9, 1e-9, 2e-9, 0.5, 900, 1e3, 1e-9], "mt": [1.3e-9, 0.9e-9, 1.9e-9, 1e-9, 0.3, 1e3, 1e-9, 1e3]}
VALS.update(TOLS)
RS = Samples()


def pr_inputs(lab, par, zpar, kind="f"):
    n, nz = size_sym("size", par), size_sym("zsize", zpar)
    return dict(data=lab.array("data", (nz.term, n.term, n.term), kind=kind), n=n, nz=nz,
                p=dict(wl=fl("wl", 1), na=fl("na"), ni=fl("ni"), res=fl("res", 1), zres=fl("zres", 1)))


def pr_ref(lab, d, iters, pt, mt, phase_only):
    p = d["p"]
    r = refcall(lab, "retrieval", "retrieve", d["data"], p["wl"], p["na"], p["ni"], p["res"], p["zres"], num(iters), pt, mt, boolv(phase_only))
    if not r.ok:
        return r.why
    v = lab.I.res(r.value)
    if not isinstance(v, tuple):
        return describe_v(v)
    return dict(zip(("mag", "phase", "pupil", "mse", "mse_diff", "pupil_diff", "PSFi"), v))


def pr_run(rep, par, zpar, iters, tol, phase_only, which):
    lab = Lab()
    d = pr_inputs(lab, par, zpar)
    pt, mt = (fl("pt"), fl("mt")) if tol == "any" else (num(F(1, 10**8)), num(F(1, 10**8)))
    label = f"retrieve_phase(max_iters={iters}, tolerances {tol}, phase_only={phase_only}) size {par}, zsize {zpar}"
    kw = {} if tol == "default" else dict(pupil_tol=pt, mse_tol=mt)
    if phase_only:
        kw["phase_only"] = boolv(True)
    o = lab.call(lab.g("phaseretrieval", "retrieve_phase"), d["data"], lab.dict(dict(d["p"])), num(iters), **kw)
    if not rep.need("retrieve_phase completes", label, o):
        return
    ref = pr_ref(lab, d, iters, pt, mt, phase_only)
    if isinstance(ref, str):
        rep.undecided("reference", label, ref)
        return
    r = o.value
    if which == "books":
        for at, rule in (("mse", "the error record holds the mean squared error of every iteration"),
                         ("mse_diff", "the error change record holds the relative changes, NaN first"),
                         ("pupil_diff", "the pupil change record holds the relative changes, NaN first")):
            g = lab.get(r, at)
            if rep.need(f"{at} can be read", label, g):
                compare(rep, rule, label, lab, g.value, ref[at], RS)
        c = refcall(lab, "retrieval", "coords", d["p"]["wl"], d["p"]["na"], d["p"]["res"], d["n"])
        v = lab.I.res(c.value) if c.ok else None
        if isinstance(v, tuple):
            for at, w in zip(("r", "theta"), v):
                g = lab.get(r, at)
                if rep.need(f"{at} can be read", label, g):
                    compare(rep, "the result carries the centred pupil coordinates", f"{label}: {at}", lab, g.value, w, RS)
        for at in ("na", "wl"):
            g = lab.get(r, at)
            if rep.need(f"{at} can be read", label, g):
                compare(rep, "the result carries the aperture and wavelength", f"{label}: {at}", lab, g.value, d["p"][at], RS)
        m = lab.get(r, "model")
        if rep.need("model can be read", label, m):
            for at, w in dict(d["p"], size=d["n"], zsize=d["nz"], vec_corr="none", condition="none").items():
                g = lab.get(m.value, at)
                if rep.need(f"model.{at} can be read", label, g):
                    compare(rep, "the model has the parameters and the size of the data", f"{label}: {at}", lab, g.value, w, RS)
            g = lab.get(m.value, "PSFi")
            if rep.need("model.PSFi can be read", label, g):
                compare(rep, "the model has the pupil of the last recorded iteration", label, lab, g.value, ref["PSFi"], RS)
    else:
        for at, rule in (("mag", "the magnitude is that of the last projected pupil, centred, zero outside the aperture"),
                         ("phase", "the phase is that of the last projected pupil, centred and unwrapped, zero outside the aperture")):
            g = lab.get(r, at)
            if rep.need(f"{at} can be read", label, g):
                compare(rep, rule, label, lab, g.value, ref[at], RS)
        g = lab.get(r, "complex_pupil")
        if rep.need("complex_pupil can be read", label, g):
            compare(rep, "the complex pupil is the last projected pupil", label, lab, g.value, ref["pupil"], RS)
    rep.seen(lab)


def pr_cases(thorough):
    for par in ("odd", "even"):
        for zpar in ("odd", "even"):
            for iters in (1, 2, 3, 4) if thorough else (1, 2, 3):
                for tol in ("default", "any"):
                    for po in (False, True):
                        yield par, zpar, iters, tol, po


def c18(rep, thorough):
    for c in pr_cases(thorough):
        rep.spawn(pr_run, *c, "books")


def c19(rep, thorough):
    for c in pr_cases(thorough):
        rep.spawn(pr_run, *c, "pupil")


def mk_result(rep, lab, par, label, zrange=False, kind="HanserPSF"):
    """A PhaseRetrievalResult with symbolic magnitude and phase, built by its constructor."""
    kw = psf_kw("odd", par, vec_corr="none", condition="none")
    if zrange:
        kw["zrange"] = lab.array("zr", (isym("nz", 4),), unit=1)
    m = make(lab, "HanserPSF", kw)
    if not rep.need("constructor completes", label, m):
        return None, None, None
    n = kw["size"].term
    mag, ph = lab.array("mag", (n, n), nonneg=True), lab.array("ph", (n, n))
    rec = [lab.array(s, (isym("its", 1),)) for s in ("mse", "pd", "md")]
    r = lab.call(lab.g("phaseretrieval", "PhaseRetrievalResult"), mag, ph, *rec, m.value)
    if not rep.need("PhaseRetrievalResult completes", label, r):
        return None, None, None
    return r.value, kw, (mag, ph)


def pr_sizes(rep, thorough):
    """PSFs generated from a retrieved pupil: asked-for sizes and positions, centre kept."""
    for par in ("odd", "even"):
        for how in ("default", "same", "larger odd", "larger even", "smaller odd", "smaller even"):
            for z in ("default", "zsize", "zrange", "scalar zrange"):
                if thorough or z == "default" or how in ("default", "smaller odd"):
                    for src in ("generate_psf", "generate_zd_psf"):
                        rep.spawn(pr_size, par, how, z, src)


def pr_size(rep, par, how, z, src):
    lab = Lab()
    label = f"{src}, model size {par}, size {how}, focal positions {z}"
    r, kw, arrs = mk_result(rep, lab, par, label)
    if r is None:
        return
    n = kw["size"].term
    p = PAR[par]
    args = {}
    if how != "default":
        if how == "same":
            size = n
        else:
            q = 1 if how.endswith("odd") else 0
            if how.startswith("larger"):
                d = isym("d", 2 if p == q else 1, p ^ q)
                size = n + d
            else:
                # the requested size is the free one
                lab = Lab()
                size = isym("size9", 8 + q, q)
                r = None
        args["size"] = intv(size)
    if r is None:
        # rebuild with a model larger than the requested size
        d = isym("d", 2 if p == q else 1, p ^ q)
        kw = psf_kw("odd", par, vec_corr="none", condition="none")
        kw["size"] = intv(size + d)
        n = kw["size"].term
        m = make(lab, "HanserPSF", kw)
        if not rep.need("constructor completes", label, m):
            return
        arrs = lab.array("mag", (n, n), nonneg=True), lab.array("ph", (n, n))
        rec = [lab.array(s, (isym("its", 1),)) for s in ("mse", "pd", "md")]
        o = lab.call(lab.g("phaseretrieval", "PhaseRetrievalResult"), *arrs, *rec, m.value)
        if not rep.need("PhaseRetrievalResult completes", label, o):
            return
        r = o.value
    size = args["size"].term if "size" in args else n
    if z == "zsize":
        args["zsize"] = size_sym("zsize2", "even")
    elif z == "zrange":
        args["zrange"] = lab.array("zr2", (isym("nz2", 4),), unit=1)
    elif z == "scalar zrange":
        args["zrange"] = fl("z0", 1, pos=False)
    if src == "generate_zd_psf":
        k = 6
        zd = lab.call(lab.g("phaseretrieval", "ZernikeDecomposition"), lab.array("mcf", (P.as_poly(k),)), lab.array("pcf", (P.as_poly(k),)), lab.array("zs", (P.as_poly(k), n, n)))
        if not rep.need("ZernikeDecomposition completes", label, zd):
            return
        if not rep.need("zd_result can be set", label, lab.set(r, "zd_result", zd.value)):
            return
        c = refcall(lab, "retrieval", "recon_pupil", *[lab.get(zd.value, a).value for a in ("mcoefs", "pcoefs", "zerns")], num(4))
    else:
        c = refcall(lab, "retrieval", "complex_pupil", *arrs)
    if not c.ok:
        rep.undecided("reference", label, c.why)
        return
    o = lab.meth(r, src, **args)
    if not rep.need(f"{src} completes", label, o):
        return
    pos = args.get("zrange")
    if pos is None:
        zz = refcall(lab, "optics", "default_zrange", args.get("zsize", kw["zsize"]), kw["zres"])
        pos = zz.value
    elif z == "scalar zrange":
        pos = lab.I.new_list([pos])
    ref = refcall(lab, "retrieval", "generated", kw["wl"], kw["na"], kw["ni"], kw["res"], kw["size"], pos, c.value, intv(size))
    if ref.ok:
        compare(rep, "the generated PSF is the pupil's PSF, cropped or padded about its centre", label, lab, o.value, ref.value, RS)
    else:
        rep.undecided("reference", label, ref.why)
    rep.seen(lab)


# ------------------------------------------------------------------ Zernike decomposition
ZS = Samples(grid=LARGE)
SLICES = (None, (0, None, 1), (4, None, 1), (0, 3, 1), (1, None, 2), (2, 5, 1), (3, 4, 1))


def slice_v(s):
    return SliceV(*[None if x is None else num(x) for x in s])


def bounds(s, k):
    a, b, c = range(k)[slice(*s)] and (lambda r: (r.start, r.stop, r.step))(range(k)[slice(*s)]) or (0, 0, 1)
    return num(a), num(b), num(c)


def fitted(rep, par, k, source, again):
    """fit_to_zernikes of arbitrary maps, on a result built directly or by retrieve_phase."""
    lab = Lab()
    label = f"fit_to_zernikes({k}) of {source}, size {par}{', second fit' if again else ''}"
    r, kw, arrs = mk_result(rep, lab, par, label)
    if r is None:
        return
    for a, name in zip(arrs, ("magnitude", "phase")):
        lab.own(a, f"the {name} of the result")
    if again and not rep.need("fit_to_zernikes completes", label, lab.meth(r, "fit_to_zernikes", num(again))):
        return
    if source == "replaced maps":
        n = kw["size"].term
        arrs = lab.array("mag2", (n, n), nonneg=True), lab.array("ph2", (n, n))
        for at, a in zip(("mag", "phase"), arrs):
            if not rep.need(f"{at} can be assigned", label, lab.set(r, at, a)):
                return
    o = lab.meth(r, "fit_to_zernikes", num(k))
    if not rep.need("fit_to_zernikes completes", label, o):
        return
    nms = degs(range(1, k + 1))
    p = (kw["wl"], kw["na"], kw["res"], kw["size"])
    for at, a in zip(("mcoefs", "pcoefs"), arrs):
        g, ref = lab.get(o.value, at), refcall(lab, "retrieval", "fit", a, *p, nms)
        if rep.need(f"{at} can be read", label, g):
            if ref.ok:
                compare(rep, "coefficients are the least-squares fit of the Zernike modes inside the aperture", f"{label}: {at}", lab, g.value, ref.value, ZS)
            else:
                rep.undecided("coefficients are the least-squares fit of the Zernike modes inside the aperture", label, ref.why)
    g, ref = lab.get(o.value, "zerns"), refcall(lab, "retrieval", "basis", *p, nms)
    if rep.need("zerns can be read", label, g):
        if ref.ok:
            compare(rep, "the decomposition holds the Noll-ordered modes on the aperture", label, lab, g.value, ref.value, ZS)
        else:
            rep.undecided("the decomposition holds the Noll-ordered modes on the aperture", label, ref.why)
    z = lab.get(r, "zd_result")
    if rep.need("zd_result can be read", label, z):
        a, b = lab.I.res(z.value), lab.I.res(o.value)
        rule = "the result keeps the decomposition it returned last"
        if isinstance(a, Obj) and isinstance(b, Obj):
            (rep.ok if a == b else rep.bad)(rule, label, "" if a == b else "another object")
        else:
            rep.undecided(rule, label, describe_v(a))
    for at, a in zip(("mag", "phase"), arrs):
        g = lab.get(r, at)
        if rep.need(f"{at} can be read", label, g):
            compare(rep, "fitting leaves the retrieved maps alone", f"{label}: {at}", lab, g.value, a, ZS)
    check_mutations(rep, "fitting leaves the retrieved maps alone", lab, label)
    rep.seen(lab)


def reconstructed(rep, k, par):
    lab = Lab()
    n = isym("n0", 8 + par, par)
    mc, pc, zs = lab.array("mcf", (P.as_poly(k),)), lab.array("pcf", (P.as_poly(k),)), lab.array("zs", (P.as_poly(k), n, n))
    for a, name in zip((mc, pc, zs), ("magnitude coefficients", "phase coefficients", "modes")):
        lab.own(a, name)
    label = f"ZernikeDecomposition of {k} modes"
    zd = lab.call(lab.g("phaseretrieval", "ZernikeDecomposition"), mc, pc, zs)
    if not rep.need("ZernikeDecomposition completes", label, zd):
        return
    for at, w in (("mcoefs", mc), ("pcoefs", pc), ("zerns", zs)):
        g = lab.get(zd.value, at)
        if rep.need(f"{at} can be read", label, g):
            compare(rep, "the decomposition keeps its coefficients and modes", f"{label}: {at}", lab, g.value, w, US)
    for s in SLICES[1:]:
        for at, c in (("mag", mc), ("phase", pc)):
            o, ref = lab.meth(zd.value, at, slice_v(s)), refcall(lab, "retrieval", "recon", c, zs, *bounds(s, k))
            lb = f"{label}: {at} from modes {s}"
            if rep.need(f"{at} completes", lb, o):
                if ref.ok:
                    compare(rep, "a reconstruction is the weighted sum of the chosen modes", lb, lab, o.value, ref.value, US)
                else:
                    rep.undecided("a reconstruction is the weighted sum of the chosen modes", lb, ref.why)
    for a, b in ((None, None), (None, 2), (3, None), (4, 5), (6, 1)):
        args = {}
        sa, sb = SLICES[a] if a else SLICES[1], SLICES[b] if b else SLICES[1]
        if a:
            args["smag"] = slice_v(sa)
        if b:
            args["sphase"] = slice_v(sb)
        lb = f"{label}: complex pupil from modes {sa if a else 'all'} and {sb if b else 'all'}"
        o, ref = lab.meth(zd.value, "complex_pupil", **args), refcall(lab, "retrieval", "recon_complex", mc, pc, zs, bounds(sa, k), bounds(sb, k))
        if rep.need("complex_pupil completes", lb, o):
            if ref.ok:
                compare(rep, "the complex pupil combines the reconstructed magnitude and phase", lb, lab, o.value, ref.value, US)
            else:
                rep.undecided("the complex pupil combines the reconstructed magnitude and phase", lb, ref.why)
    check_mutations(rep, "reconstruction leaves coefficients and modes alone", lab, label)
    rep.seen(lab)


def zd_psf(rep, par, s):
    """generate_zd_psf uses all magnitude modes and the chosen phase modes (by default those from Noll index 5)."""
    lab = Lab()
    label = f"generate_zd_psf(sphase={s or 'default'}), size {par}"
    r, kw, arrs = mk_result(rep, lab, par, label)
    if r is None:
        return
    k, n = 7, kw["size"].term
    c = lab.array("mcf", (P.as_poly(k),)), lab.array("pcf", (P.as_poly(k),)), lab.array("zs", (P.as_poly(k), n, n))
    zd = lab.call(lab.g("phaseretrieval", "ZernikeDecomposition"), *c)
    if not rep.need("ZernikeDecomposition completes", label, zd) or not rep.need("zd_result can be set", label, lab.set(r, "zd_result", zd.value)):
        return
    o = lab.meth(r, "generate_zd_psf", **({"sphase": slice_v(s)} if s else {}))
    p = refcall(lab, "retrieval", "recon_complex", *c, bounds((0, None, 1), k), bounds(s or (4, None, 1), k))
    z = refcall(lab, "optics", "default_zrange", kw["zsize"], kw["zres"])
    if not p.ok or not z.ok:
        rep.undecided("reference", label, p.why or z.why)
        return
    ref = refcall(lab, "retrieval", "generated", kw["wl"], kw["na"], kw["ni"], kw["res"], kw["size"], z.value, p.value, kw["size"])
    if rep.need("generate_zd_psf completes", label, o):
        if ref.ok:
            compare(rep, "the decomposed PSF has the chosen modes in its pupil", label, lab, o.value, ref.value, RS)
        else:
            rep.undecided("the decomposed PSF has the chosen modes in its pupil", label, ref.why)
    rep.seen(lab)


def c34(rep, thorough):
    for par in ("odd", "even"):
        for k in (1, 2, 4, 5, 11, 15, 22) if thorough else (1, 4, 11):
            for source in ("the retrieved maps", "replaced maps"):
                for again in (0, 6) if source == "the retrieved maps" else (6,):
                    if thorough or k == 4 or not again:
                        rep.spawn(fitted, par, k, source, again)
        for s in SLICES:
            rep.spawn(zd_psf, par, s)
    for k in (6, 11) if thorough else (6,):
        for par in (0, 1):
            rep.spawn(reconstructed, k, par)


# ------------------------------------------------------------------ results are left alone
MAPS = ("mag", "phase", "mse", "mse_diff", "pupil_diff", "r", "theta", "complex_pupil", "na", "wl")
RESULT_OPS = {
    "generate_psf": ("generate_psf", lambda kw: {}),
    "generate_psf(size)": ("generate_psf", lambda kw: {"size": intv(kw["size"].term - 3)}),
    "generate_psf(zsize)": ("generate_psf", lambda kw: {"zsize": size_sym("zsize2", "even")}),
    "generate_psf(zrange)": ("generate_psf", lambda kw: {"zrange": "zr2"}),
    "generate_zd_psf": ("generate_zd_psf", lambda kw: {}),
    "generate_zd_psf(zrange)": ("generate_zd_psf", lambda kw: {"zrange": "zr2"}),
    "fit_to_zernikes": ("fit_to_zernikes", lambda kw: {"num_zerns": num(6)}),
    "plot": ("plot", lambda kw: {}),
    "plot_convergence": ("plot_convergence", lambda kw: {}),
}


def derived(rep, par, op, own_zrange, source):
    """A method of a result changes neither the result nor its model, and later changes of the model do not change what was returned."""
    from .aberprops import MODEL_PARAMS, frozen, snapshot, unchanged
    from .dataprops import clobber
    from .psfmodels import OUTPUTS

    lab = Lab()
    label = f"{op} of a {source}, size {par}{', own focal positions' if own_zrange else ''}"
    if source == "constructed result":
        r, kw, arrs = mk_result(rep, lab, par, label, zrange=own_zrange)
    else:
        d = pr_inputs(lab, par, "odd")
        kw = dict(d["p"], size=d["n"], zsize=d["nz"])
        o = lab.call(lab.g("phaseretrieval", "retrieve_phase"), d["data"], lab.dict(dict(d["p"])), num(1))
        r = o.value if rep.need("retrieve_phase completes", label, o) else None
    if r is None:
        return
    name, mk = RESULT_OPS[op]
    if name == "generate_zd_psf":
        k, n = 6, kw["size"].term
        zd = lab.call(lab.g("phaseretrieval", "ZernikeDecomposition"), lab.array("mcf", (P.as_poly(k),)), lab.array("pcf", (P.as_poly(k),)), lab.array("zs", (P.as_poly(k), n, n)))
        if not rep.need("zd_result can be set", label, lab.set(r, "zd_result", zd.value)):
            return
    args = mk(kw)
    if args.get("zrange") == "zr2":
        args["zrange"] = lab.array("zr2", (isym("nz2", 4),), unit=1)
    m = lab.get(r, "model")
    if not rep.need("model can be read", label, m):
        return
    before, mbefore = snapshot(lab, r, MAPS), snapshot(lab, m.value, MODEL_PARAMS + OUTPUTS)
    o = lab.meth(r, name, **args)
    if not rep.need(f"{name} completes", label, o):
        return
    unchanged(rep, "methods of a result leave its maps and records alone", label, lab, r, before)
    unchanged(rep, "methods of a result leave its model alone", label, lab, m.value, mbefore)
    if name.startswith("generate"):
        kept = frozen(lab, o.value)
        again = snapshot(lab, m.value, OUTPUTS)
        w = lab.run(lambda: clobber(lab, o.value))
        if rep.need("the PSF can be written to", label, w):
            unchanged(rep, "the generated PSF shares nothing with the model", label, lab, m.value, again)
            unchanged(rep, "the generated PSF shares nothing with the result", label, lab, r, before)
        o2 = lab.meth(r, name, **args)
        if rep.need(f"{name} completes again", label, o2):
            compare(rep, "generating a PSF again gives the same", label, lab, o2.value, kept, RS)
            w = lab.set(m.value, "wl", fl("wl2", 1))
            if rep.need("wl can be assigned", label, w):
                lab.get(m.value, "PSFi")
                compare(rep, "a generated PSF does not follow the model", label, lab, o2.value, kept, RS)
    rep.seen(lab)


def results_alone(rep, thorough):
    for op in RESULT_OPS:
        for par in ("odd", "even"):
            for z in (False, True):
                if thorough or par == "even":
                    rep.spawn(derived, par, op, z, "constructed result")
        if not op.startswith("plot"):
            rep.spawn(derived, "even", op, False, "retrieval result")


# ------------------------------------------------------------------ LabVIEW wrapper
LV = {"wl": ("wl", 1), "na": ("na", 0), "ni": ("ni", 0), "res": ("res", 1), "zres": ("zres", 1)}


def labview(rep, how, form, args, po):
    lab = Lab()
    label = f"labview, {how} planes as {form}, options {args}{', phase only' if po else ''}"
    nz, n, d = isym("nz", 6), isym("n0", 9, 1), isym("d0", 2, 0)
    if form == "nested lists":
        nz = P.as_poly(3)
    ny, nx = {"square": (n, n), "wide": (n, n + d), "tall": (n + d, n)}[how]
    x = lab.array("data", (nz, ny, nx), kind="i", nonneg=True)
    v = x
    if form == "nested lists":
        rows = lab.run(lambda: lab.I.new_list([lab.I.getitem(x, num(j)) for j in range(3)]))
        if not rep.need("list", label, rows):
            return
        v = rows.value
        o = refcall(lab, "retrieval", "as_array", v)
        if not o.ok:
            rep.undecided("reference", label, o.why)
            return
        x = o.value
    p = {k: fl(s, u) for k, (s, u) in LV.items()}
    its, pt, mt = 2, num(F(1, 10**8)), num(F(1, 10**8))
    kw = {"max_iters": num(its)}
    if args == "tolerances":
        pt, mt = kw["pupil_tol"], kw["mse_tol"] = fl("pt"), fl("mt")
    pos = []
    if args == "positional":
        pt, mt = fl("pt"), fl("mt")
        pos, kw = [num(its), pt, mt, boolv(po)], {}
    elif po:
        kw["phase_only"] = boolv(True)
    o = lab.call(lab.g("labview", "labview"), v, *[p[k] for k in LV], *pos, **kw)
    if not rep.need("labview completes", label, o):
        return
    rule = "the result is plain (nested) lists"
    cs = []
    split_cases(lab, o.value, None, None, cs)
    ts = [t for st, t, w in cs]
    if any(isinstance(t, (Arr, AV)) for t in ts):
        rep.bad(rule, label, "an array is returned")
    elif all(isinstance(t, (ListRef, SymSeq)) for t in ts):
        row = lab.run(lambda: lab.I.getitem(o.value, num(0)))
        cs = []
        if row.ok:
            split_cases(lab, row.value, None, None, cs)
        ts = [t for st, t, w in cs]
        if any(isinstance(t, (Arr, AV)) for t in ts):
            rep.bad(rule, label, "the rows are arrays")
        elif ts and all(isinstance(t, (ListRef, SymSeq)) for t in ts):
            rep.ok(rule, label)
        else:
            rep.undecided(rule, label, describe_v(ts[0]) if ts else row.why)
    else:
        rep.undecided(rule, label, describe_v(ts[0]))
    a = refcall(lab, "retrieval", "as_array", o.value)
    ref = refcall(lab, "retrieval", "labview_phase", x, *[p[k] for k in LV], num(its), pt, mt, boolv(po), intv(n + d if how != "square" else n), boolv(how == "square"))
    if a.ok and ref.ok:
        compare(rep, "the wrapper returns the phase retrieved from the prepared data with the given parameters", label, lab, a.value, ref.value, RS)
    else:
        rep.undecided("the wrapper returns the phase retrieved from the prepared data with the given parameters", label, (a if not a.ok else ref).why)
    rep.seen(lab)


def c25(rep, thorough):
    for how in ("square", "wide", "tall"):
        for form in ("an array", "nested lists"):
            for args in ("default", "tolerances", "positional"):
                for po in (False, True):
                    if thorough or how == "square" or (args, po) == ("default", False):
                        rep.spawn(labview, how, form, args, po)


CHECKS = {"C18": c18, "C19": c19, "C25": c25, "C34": c34}
