"""Properties of aberration application (pyotf.otf) and of deriving models from models."""
from ..check import *
from .psfmodels import OUTPUTS, check_mutations, expect_zero, outputs_equal, protect, read_all, ref_psf, tag
from .zernprops import NAMES, const_arr, noll_degrees, raised

AS = Samples()
MODEL_PARAMS = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition", "zrange")


def degs(js):
    return tuple((num(n), num(m)) for n, m in map(noll_degrees, js))


def coefs(lab, name, n):
    return lab.array(name, (P.as_poly(n),))


def zpos(lab, kw, given):
    if given:
        return lab.array("zr", (isym("nz", 4),), unit=1)
    return None


def build(rep, lab, kw, label, zr=None, cls="HanserPSF"):
    o = make(lab, cls, dict(kw, zrange=zr) if zr is not None else kw)
    if not rep.need("constructor completes", label, o):
        return None, None
    if zr is None and cls == "HanserPSF":
        z = refcall(lab, "optics", "default_zrange", kw["zsize"], kw["zres"])
        zr = z.value if z.ok else None
    return o.value, zr


def ref_ab(lab, kw, zr, mc, pc, js):
    return refcall(lab, "aber", "aberrated_PSFa", kw["wl"], kw["na"], kw["ni"], kw["res"], kw["size"], zr, kw["vec_corr"], kw["condition"], mc, pc, degs(js))


def same_params(rep, rule, label, lab, o, want):
    for at, w in want.items():
        g = lab.get(o, at)
        if not rep.need(f"parameter {at} can be read", label, g):
            continue
        x, y = lab.I.res(g.value), lab.I.res(w)
        if isinstance(x, str) or isinstance(y, str):
            (rep.ok if x == y else rep.bad)(rule, f"{label}: {at}", "" if x == y else f"{x!r} instead of {y!r}")
        elif at == "dual":
            compare(rep, rule, f"{label}: {at}", lab, x, y, AS)
        else:
            compare(rep, rule, f"{label}: {at}", lab, x, y, AS)


def params_of(lab, o, names=MODEL_PARAMS):
    d = {}
    for at in names:
        g = lab.get(o, at)
        if g.ok:
            d[at] = g.value
    return d


def general(rep, vc, cond, p, zp, n, which, given, rd=()):
    """apply_aberration with arbitrary coefficient vectors of length n."""
    lab = Lab()
    kw = psf_kw(zp, p, vec_corr=vc, condition=cond)
    label = f"apply_aberration({tag('HanserPSF', kw)} size {p}{' with zrange' if given else ''}, {which} of length {n}){' after reading ' + ','.join(rd) if rd else ''}"
    o, zr = build(rep, lab, kw, label, zpos(lab, kw, given))
    if o is None or zr is None:
        return
    protect(lab, read_all(rep, lab, o, label, rd))
    mc = coefs(lab, "mc", n) if "mcoefs" in which else None
    pc = coefs(lab, "pc", n) if "pcoefs" in which else None
    pre = params_of(lab, o)
    a = lab.call(lab.g("otf", "apply_aberration"), o, mc, pc)
    if not rep.need("apply_aberration completes", label, a):
        return
    ref = ref_ab(lab, kw, zr, mc, pc, range(1, n + 1))
    g = lab.get(a.value, "PSFa")
    if rep.need("PSFa can be read", label, g):
        if ref.ok:
            compare(rep, "PSFa has the weighted Zernike modes in its pupil", label, lab, g.value, ref.value, AS)
        else:
            rep.undecided("reference", label, ref.why)
    same_params(rep, "an aberrated model keeps the parameters of its source", label, lab, a.value, pre)
    rep.seen(lab)


def named(rep, vc, p):
    lab = Lab()
    kw = psf_kw("odd", p, vec_corr=vc, condition="sine")
    o, zr = build(rep, lab, kw, "HanserPSF")
    if o is None or zr is None:
        return
    mag = fl("mag", pos=False)
    for j, name in NAMES.items():
        label = f"apply_named_aberration({tag('HanserPSF', kw)} size {p}, {name!r}, mag)"
        a = lab.call(lab.g("otf", "apply_named_aberration"), o, name, mag)
        if not rep.need("apply_named_aberration completes", label, a):
            continue
        ref = ref_ab(lab, kw, zr, None, lab.I.new_list([mag]), [j])
        g = lab.get(a.value, "PSFa")
        if rep.need("PSFa can be read", label, g) and ref.ok:
            compare(rep, "a named aberration is its single Zernike mode in the phase", label, lab, g.value, ref.value, AS)
    rep.seen(lab)


def several(rep, vc, p):
    lab = Lab()
    kw = psf_kw("even", p, vec_corr=vc, condition="none")
    o, zr = build(rep, lab, kw, "HanserPSF")
    if o is None or zr is None:
        return
    f = lab.g("otf", "apply_named_aberrations")
    for js in ([4], [5, 11], [11, 5], [2, 3, 4, 8], [15, 1, 7]):
        mags = [fl(f"mag{j}", pos=False) for j in js]
        label = f"apply_named_aberrations({tag('HanserPSF', kw)} size {p}, {[NAMES[j] for j in js]})"
        a = lab.call(f, o, lab.dict({NAMES[j]: m for j, m in zip(js, mags)}))
        if not rep.need("apply_named_aberrations completes", label, a):
            continue
        ref = ref_ab(lab, kw, zr, None, lab.I.new_list(mags), js)
        g = lab.get(a.value, "PSFa")
        if rep.need("PSFa can be read", label, g) and ref.ok:
            compare(rep, "several named aberrations add up", label, lab, g.value, ref.value, AS)
    # none at all
    label = f"apply_named_aberrations({tag('HanserPSF', kw)} size {p}, no aberration)"
    a = lab.call(f, o, lab.dict({}))
    if rep.need("apply_named_aberrations completes", label, a):
        g, ref = lab.get(a.value, "PSFa"), ref_psf(lab, "HanserPSF", kw, zrange=zr)[1]
        if rep.need("PSFa can be read", label, g) and ref.ok:
            compare(rep, "no or zero aberration leaves the PSF unaberrated", label, lab, g.value, ref.value, AS)
    rep.seen(lab)


def nothing(rep, vc, p, given):
    """Zero coefficients, and no coefficients at all."""
    lab = Lab()
    kw = psf_kw("odd", p, vec_corr=vc, condition="herschel")
    label = f"apply_aberration({tag('HanserPSF', kw)} size {p}{' with zrange' if given else ''}"
    o, zr = build(rep, lab, kw, label, zpos(lab, kw, given))
    if o is None or zr is None:
        return
    f = lab.g("otf", "apply_aberration")
    ref = ref_psf(lab, "HanserPSF", kw, zrange=zr)[1]
    z = lambda n: const_arr(lab, [0.0] * n)
    for name, args in (("None, None", (None, None)), ("None, 0", (None, z(4))), ("0, None", (z(4), None)), ("0, 0", (z(3), z(3)))):
        a = lab.call(f, o, *args)
        lb = f"{label}, {name})"
        if rep.need("apply_aberration completes", lb, a):
            g = lab.get(a.value, "PSFa")
            if rep.need("PSFa can be read", lb, g) and ref.ok:
                compare(rep, "no or zero aberration leaves the PSF unaberrated", lb, lab, g.value, ref.value, AS)
            same_params(rep, "an aberrated model keeps the parameters of its source", lb, lab, a.value, dict({k: v for k, v in kw.items()}, zrange=zr))
    rep.seen(lab)


def vector_of_name(rep):
    lab = Lab()
    mag = fl("mag", pos=False)
    for j, name in NAMES.items():
        label = f"named_aberration_to_pcoefs({name!r}, mag)"
        a = lab.call(lab.g("otf", "named_aberration_to_pcoefs"), name, mag)
        if rep.need("named_aberration_to_pcoefs completes", label, a):
            v = lab.av(a.value)
            if v is None or v.shape is None or len(v.shape) != 1 or v.shape[0].const() is None:
                rep.undecided("coefficient vector of a named aberration", label, describe_v(a.value))
                continue
            n = int(v.shape[0].const())
            if n < j:
                rep.bad("coefficient vector of a named aberration", label, f"has only {n} entries")
                continue
            want = lab.call(lab.g("otf", "np")) if False else const_arr(lab, [0.0] * n)
            w = lab.run(lambda: (lab.I.setitem(want, num(j - 1), mag), want)[1])
            if w.ok:
                compare(rep, "coefficient vector of a named aberration", label, lab, a.value, w.value, AS)
            else:
                rep.undecided("coefficient vector of a named aberration", label, w.why)
    rep.seen(lab)


def inverse(rep, p):
    """Applying the opposite phase to the aberrated pupil's phase is not offered; but aberrations start from the ideal pupil,
    so aberrating an aberrated model equals aberrating its source."""
    lab = Lab()
    kw = psf_kw("odd", p, vec_corr="none", condition="sine")
    label = f"apply_aberration of an aberrated {tag('HanserPSF', kw)} size {p}"
    o, zr = build(rep, lab, kw, label)
    if o is None:
        return
    f = lab.g("otf", "apply_aberration")
    a = lab.call(f, o, None, coefs(lab, "pa", 4))
    if not rep.need("apply_aberration completes", label, a):
        return
    protect(lab, read_all(rep, lab, a.value, label, OUTPUTS))
    pc, mc = coefs(lab, "pc", 6), coefs(lab, "mc", 6)
    b = lab.call(f, a.value, mc, pc)
    if rep.need("apply_aberration completes", label, b):
        ref = ref_ab(lab, kw, zr, mc, pc, range(1, 7))
        g = lab.get(b.value, "PSFa")
        if rep.need("PSFa can be read", label, g) and ref.ok:
            compare(rep, "aberrations start from the ideal pupil of the model", label, lab, g.value, ref.value, AS)
        check_mutations(rep, "arrays returned earlier are not modified", lab, label)
    rep.seen(lab)


def changed_source(rep, name):
    """An aberration applied after a parameter change uses the current parameters."""
    from .psfmodels import SETTERS

    lab = Lab()
    kw = psf_kw("odd", "even", vec_corr="none", condition="sine")
    label = f"apply_aberration after reading all outputs and setting {name}"
    o, zr = build(rep, lab, kw, label)
    if o is None:
        return
    protect(lab, read_all(rep, lab, o, label, OUTPUTS))
    val = SETTERS[name](kw)
    assume_ne(lab, val, kw[name])
    if not rep.need(f"{name} can be assigned", label, lab.set(o, name, val)):
        return
    kw = dict(kw, **{name: val})
    zr = refcall(lab, "optics", "default_zrange", kw["zsize"], kw["zres"]).value
    pc = coefs(lab, "pc", 5)
    a = lab.call(lab.g("otf", "apply_aberration"), o, None, pc)
    if rep.need("apply_aberration completes", label, a):
        ref = ref_ab(lab, kw, zr, None, pc, range(1, 6))
        g = lab.get(a.value, "PSFa")
        if rep.need("PSFa can be read", label, g) and ref.ok:
            compare(rep, "an aberration uses the current parameters", label, lab, g.value, ref.value, AS)
    rep.seen(lab)


def c17(rep, thorough):
    from .psfmodels import SETTERS

    lens = (1, 2, 4, 5, 11, 15, 22, 37) if thorough else (1, 4, 11, 22)
    for n in lens:
        for p in ("odd", "even"):
            for which in ("mcoefs and pcoefs", "pcoefs", "mcoefs"):
                rep.spawn(general, "none", "sine", p, "odd", n, which, False)
    for vc in VEC:
        for cond in COND:
            rep.spawn(general, vc, cond, "even", "even", 5, "mcoefs and pcoefs", True, OUTPUTS if vc == "total" else ())
    for vc in ("none", "total"):
        for p in ("odd", "even"):
            rep.spawn(named, vc, p)
            rep.spawn(several, vc, p)
            rep.spawn(nothing, vc, p, p == "odd")
    rep.spawn(vector_of_name)
    for p in ("odd", "even"):
        rep.spawn(inverse, p)
    for name in SETTERS:
        rep.spawn(changed_source, name)


# ------------------------------------------------------------------ C04: sources stay as they are
def derive_ops(lab, kw):
    """Operations that derive a model, a PSF or a figure from a model."""
    g = lambda name: lab.g("otf", name)
    pc = lambda: coefs(lab, "pc", 6)
    mag = fl("mag", pos=False)
    return {
        "apply_aberration": lambda o: lab.call(g("apply_aberration"), o, coefs(lab, "mc", 6), pc()),
        "apply_aberration without coefficients": lambda o: lab.call(g("apply_aberration"), o, None, None),
        "apply_named_aberration": lambda o: lab.call(g("apply_named_aberration"), o, "defocus", mag),
        "apply_named_aberrations": lambda o: lab.call(g("apply_named_aberrations"), o, lab.dict({"defocus": mag, "tip": mag})),
        "apply_named_aberrations of none": lambda o: lab.call(g("apply_named_aberrations"), o, lab.dict({})),
    }


OPS = ("apply_aberration", "apply_aberration without coefficients", "apply_named_aberration", "apply_named_aberrations", "apply_named_aberrations of none")
CHANGES = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition", "zrange", "pupil")


def frozen(lab, v):
    """The value without references into the heap."""
    v = lab.I.res(v)
    if isinstance(v, tuple):
        return tuple(frozen(lab, x) for x in v)
    if isinstance(v, Cond):
        return Cond(v.c, frozen(lab, v.a), frozen(lab, v.b))
    if isinstance(v, (ListRef, SymSeq)):
        o = refcall(lab, "retrieval", "as_array", v)
        return lab.av(o.value) if o.ok else v
    a = lab.av(v) if isinstance(v, (Arr, AV)) else None
    return v if a is None else a


def snapshot(lab, o, names):
    """Values the outputs would have if they were read now, without reading them."""
    s0 = lab.I.st
    lab.I.st = s0.copy()
    n0, ev = len(lab.I.sinks[0]), len(lab.I.events)
    v = {}
    for at in names:
        g = lab.get(o, at)
        v[at] = frozen(lab, g.value) if g.ok else None
    lab.I.st = s0
    del lab.I.sinks[0][n0:]
    return v


def unchanged(rep, rule, label, lab, o, before):
    for at, b in before.items():
        if b is None:
            continue
        g = lab.get(o, at)
        if not rep.need(f"{at} can be read", label, g):
            continue
        a = lab.I.res(g.value)
        if isinstance(a, str) or isinstance(b, str):
            (rep.ok if a == b else rep.bad)(rule, f"{label}: {at}", "" if a == b else f"{a!r} instead of {b!r}")
        else:
            compare(rep, rule, f"{label}: {at}", lab, a, b, AS)


def change(rep, lab, o, kw, name, label):
    from .psfmodels import SETTERS

    if name == "pupil":
        n = lab.av(lab.get(o, "PSFa").value).shape[-1] if False else kw["size"].term
        return rep.need("apply_pupil completes", label, lab.meth(o, "apply_pupil", lab.array("pupil2", (n, n), kind="c")))
    val = lab.array("zr2", (isym("nz2", 4),), unit=1) if name == "zrange" else SETTERS[name](kw)
    if name in kw:
        assume_ne(lab, val, kw[name])
    return rep.need(f"{name} can be assigned", label, lab.set(o, name, val))


def derive(rep, op, rd, vc, source, given):
    lab = Lab()
    lab.I.import_module("otfcheck_spec.optics")
    kw = psf_kw("odd", "even", vec_corr=vc, condition="sine")
    label = f"{op} of {tag('HanserPSF', kw)} {source}{' with zrange' if given else ''}, outputs read before: {','.join(rd) or 'none'}"
    o, zr = build(rep, lab, kw, label, zpos(lab, kw, given))
    if o is None:
        return
    if source == "with a pupil":
        n = kw["size"].term
        if not rep.need("apply_pupil completes", label, lab.meth(o, "apply_pupil", lab.array("pupil", (n, n), kind="c"))):
            return
    protect(lab, read_all(rep, lab, o, label, rd))
    before = snapshot(lab, o, MODEL_PARAMS + OUTPUTS)
    a = derive_ops(lab, kw)[op](o)
    if not rep.need(f"{op} completes", label, a):
        return
    check_mutations(rep, "deriving a model does not modify arrays of its source", lab, label)
    new = snapshot(lab, a.value, MODEL_PARAMS + OUTPUTS)
    st = lab.I.st
    unchanged(rep, "the source is as it was before", label, lab, o, before)
    # later changes of either object leave the other alone
    for name in CHANGES:
        for who in ("source", "derived"):
            lab.I.st = st.copy()
            lb = f"{label}; then {name} of the {who} model changes"
            x, y, keep = (o, a.value, new) if who == "source" else (a.value, o, before)
            if change(rep, lab, x, kw, name, lb):
                unchanged(rep, "later changes of one model leave the other alone", lb, lab, y, keep)
                for at in ("PSFi",):
                    lab.get(x, at)
                unchanged(rep, "later changes of one model leave the other alone", lb + " and is read", lab, y, {"PSFi": keep["PSFi"], "zrange": keep["zrange"]})
    check_mutations(rep, "arrays of one model are not modified through the other", lab, label)
    rep.seen(lab)


def plots(rep, cls, rd):
    """Plotting a model or microscope leaves it as it was."""
    from .microprops import micro_cases, mk_micro

    lab = Lab()
    if cls in ("HanserPSF", "SheppardPSF"):
        kw = psf_kw("odd", "even", vec_corr="none", condition="sine", zsize=size_sym("zsize", "odd"))
        o = make(lab, cls, kw)
        names = OUTPUTS + tuple(p for p in MODEL_PARAMS if p != "zrange" or cls == "HanserPSF")
    else:
        d = micro_kw("even", zres=fl("zres", 1), zsize=size_sym("zsize", "odd"))
        o = lab.call(lab.g("microscope", cls), **d)
        names = ("PSF", "OTF")
    label = f"plots of {cls}, outputs read before: {','.join(rd) or 'none'}"
    if not rep.need("constructor completes", label, o):
        return
    o = o.value
    protect(lab, read_all(rep, lab, o, label, rd))
    before = snapshot(lab, o, names)
    for m in ("plot_psf", "plot_otf"):
        if rep.need(f"{m} completes", label, lab.meth(o, m)):
            unchanged(rep, "plotting leaves the object as it was", f"{label}: {m}", lab, o, before)
    check_mutations(rep, "plotting does not modify arrays", lab, label)
    rep.seen(lab)


def c04(rep, thorough):
    for op in OPS:
        for rd in ((), OUTPUTS, ("PSFi",)) if thorough else ((), OUTPUTS):
            for source in ("as built", "with a pupil"):
                for vc in ("none", "total") if thorough else ("none",):
                    rep.spawn(derive, op, rd, vc, source, source == "as built")
    for cls in ("HanserPSF", "SheppardPSF"):
        for rd in ((), OUTPUTS):
            rep.spawn(plots, cls, rd)
    for rd in ((), ("PSF", "OTF")):
        rep.spawn(plots, "WidefieldMicroscope", rd)
    from .prprops import results_alone

    results_alone(rep, thorough)


def aber_support(rep, thorough):
    """Aberrations are confined to the aperture (away from its edge, where the modes and the aperture differ in strictness)."""
    for vc in ("none", "total"):
        for p in ("odd", "even"):
            rep.spawn(aber_outside, vc, p)


def aber_outside(rep, vc, p):
    lab = Lab()
    kw = psf_kw("odd", p, vec_corr=vc, condition="sine")
    label = f"apply_aberration({tag('HanserPSF', kw)} size {p}, mcoefs and pcoefs of length 6)"
    o, zr = build(rep, lab, kw, label)
    if o is None:
        return
    a = lab.call(lab.g("otf", "apply_aberration"), o, coefs(lab, "mc", 6), coefs(lab, "pc", 6))
    if not rep.need("apply_aberration completes", label, a):
        return
    g = lab.get(a.value, "PSFa")
    if rep.need("PSFa can be read", label, g):
        out = refcall(lab, "pupil", "outside_passband", g.value, kw["wl"], kw["na"], kw["res"], kw["size"])
        rule = "no amplitude is transmitted outside the numerical aperture"
        if out.ok:
            # magnitude coefficients add modes that are defined up to and including the rim
            expect_zero(rep, rule, label, lab, out.value, g.value, rim=False)
        else:
            rep.undecided(rule, label, out.why)
    rep.seen(lab)


CHECKS = {"C04": c04, "C17": c17}
