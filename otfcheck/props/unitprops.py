"""C05: nothing depends on the unit of length."""
from .. import poly as P
from ..check import *
from ..values import AV
from .aberprops import coefs
from .microprops import micro_cases, mk_micro
from .prprops import mk_result, pr_inputs
from .psfmodels import OUTPUTS, tag

LENGTHS = ("wl", "res", "zres", "wl_exc", "pixel_size")
# microns to metres, to nanometres, to millimetres, to Angstrom, to kilometres
US = Samples(vals=dict(scale=[1e-6, 1e3, 1e-3, 1e4, 1e-9]), n=5)
R = "the same in any unit of length"


def scale():
    return P.sym("scale", pos=True)


def scaled(lab, v):
    a = lab.av(v)
    if a is not None and a.shape == ():
        return AV((), "f", F(1), a.term * scale(), pt="float")
    o = lab.run(lambda: lab.I.binop("Mult", v, AV((), "f", F(0), scale(), pt="float")))
    assert o.ok, o.why
    return o.value


def rescale(lab, kw):
    return {k: scaled(lab, v) if k in LENGTHS + ("zrange",) and v is not None else v for k, v in kw.items()}


def pair(rep, label, lab, a, b, names, rule=R):
    for at in names:
        x, y = lab.get(a, at), lab.get(b, at)
        if rep.need(f"{at} can be read", label, x) and rep.need(f"{at} can be read in another unit", label, y):
            compare(rep, rule, f"{label}: {at}", lab, y.value, x.value, US)


def units(rep, lab, label):
    ev = lab.events("unit")
    if ev:
        for e in ev:
            rep.undecided("lengths are only added to and compared with lengths", label, e)
    else:
        rep.ok("lengths are only added to and compared with lengths", label)
    rep.seen(lab)


def model(rep, cls, kw, given, change=None):
    lab = Lab()
    if given:
        kw = dict(kw, zrange=lab.array("zr", (isym("nz", 4),), unit=1))
    label = tag(cls, kw) + (" with zrange" if given else "") + (f", {change[0]} set" if change else "")
    a = make(lab, cls, kw)
    if not rep.need("constructor completes", label, a):
        return
    b = make(lab, cls, rescale(lab, kw))
    if not rep.need("constructor completes in another unit", label, b):
        return
    if change:
        at, v = change
        for o, w in ((a, v), (b, scaled(lab, v))):
            lab.get(o.value, "PSFi")
            if not rep.need(f"{at} can be set", label, lab.set(o.value, at, w)):
                return
    pair(rep, label, lab, a.value, b.value, OUTPUTS)
    units(rep, lab, label)


def aberrated(rep, kw, how):
    lab = Lab()
    label = f"{how} on HanserPSF"
    a = make(lab, "HanserPSF", kw)
    b = make(lab, "HanserPSF", rescale(lab, kw))
    if not rep.need("constructor completes", label, a) or not rep.need("constructor completes in another unit", label, b):
        return
    out = []
    mc, pc = coefs(lab, "mc", 6), coefs(lab, "pc", 6)
    for o in (a, b):
        if how == "apply_aberration":
            r = lab.call(lab.g("otf", "apply_aberration"), o.value, mc, pc)
        elif how == "apply_named_aberration":
            r = lab.call(lab.g("otf", "apply_named_aberration"), o.value, "defocus", fl("q"))
        else:
            r = lab.meth(o.value, "apply_pupil", lab.array("pup", (kw["size"].term, kw["size"].term), kind="c"))
        if not rep.need(f"{how} completes", label, r):
            return
        out.append(o.value if how == "apply_pupil" else r.value)
    pair(rep, label, lab, *out, OUTPUTS)
    units(rep, lab, label)


def microscope(rep, cls, d, label):
    lab = Lab()
    a, b = mk_micro(lab, cls, d), mk_micro(lab, cls, rescale(lab, d))
    if not rep.need("constructor completes", label, a) or not rep.need("constructor completes in another unit", label, b):
        return
    pair(rep, label, lab, a.value, b.value, ("PSF", "OTF"))
    units(rep, lab, label)


def retrieval(rep, par, po, iters):
    lab = Lab()
    d = pr_inputs(lab, par, "odd")
    label = f"retrieve_phase(max_iters={iters}, phase_only={po}) size {par}"
    out = []
    for p in (d["p"], rescale(lab, d["p"])):
        o = lab.call(lab.g("phaseretrieval", "retrieve_phase"), d["data"], lab.dict(dict(p)), num(iters), phase_only=boolv(po))
        if not rep.need("retrieve_phase completes", label, o):
            return
        out.append(o.value)
    pair(rep, label, lab, *out, ("mag", "phase", "mse", "mse_diff", "pupil_diff", "complex_pupil"))
    units(rep, lab, label)


def result(rep, par, op):
    lab = Lab()
    label = f"{op} of a result, size {par}"
    n = size_sym("size", par)
    mag, ph = lab.array("mag", (n.term, n.term), nonneg=True), lab.array("ph", (n.term, n.term))
    kw = psf_kw("odd", par, vec_corr="none", condition="none")
    zr = lab.array("zr2", (isym("nz2", 4),), unit=1)
    rec = [lab.array(s, (isym("its", 1),)) for s in ("mse", "pd", "md")]
    out = []
    for i, p in enumerate((kw, rescale(lab, kw))):
        m = make(lab, "HanserPSF", p)
        r = lab.call(lab.g("phaseretrieval", "PhaseRetrievalResult"), mag, ph, *rec, m.value) if m.ok else m
        if not rep.need("PhaseRetrievalResult completes", label, r):
            return
        z = scaled(lab, zr) if i else zr
        if op == "fit_to_zernikes":
            o = lab.meth(r.value, "fit_to_zernikes", num(6))
        elif op == "generate_psf":
            o = lab.meth(r.value, "generate_psf")
        elif op == "generate_psf(size)":
            o = lab.meth(r.value, "generate_psf", size=intv(n.term + 4))
        elif op == "generate_psf(zsize)":
            o = lab.meth(r.value, "generate_psf", zsize=size_sym("zsize2", "even"))
        else:
            o = lab.meth(r.value, "generate_psf", zrange=z)
        if not rep.need(f"{op} completes", label, o):
            return
        out.append(o.value)
    if op == "fit_to_zernikes":
        pair(rep, label, lab, *out, ("mcoefs", "pcoefs", "zerns"))
    else:
        compare(rep, R, label, lab, out[1], out[0], US)
    units(rep, lab, label)


def wrapper(rep, po):
    lab = Lab()
    d = pr_inputs(lab, "even", "odd")
    d["data"] = lab.array("counts", (d["nz"].term, d["n"].term, d["n"].term), kind="i", nonneg=True)
    label = f"labview(phase_only={po})"
    out = []
    for p in (d["p"], rescale(lab, d["p"])):
        o = lab.call(lab.g("labview", "labview"), d["data"], p["wl"], p["na"], p["ni"], p["res"], p["zres"], max_iters=num(1), phase_only=boolv(po))
        if not rep.need("labview completes", label, o):
            return
        v = refcall(lab, "retrieval", "as_array", o.value)
        if not v.ok:
            rep.undecided(R, label, v.why)
            return
        out.append(v.value)
    compare(rep, R, label, lab, out[1], out[0], US)
    units(rep, lab, label)


def c05(rep, thorough):
    for cls in ("HanserPSF", "SheppardPSF"):
        for vc in ("none", "x", "y", "z", "total"):
            for cond in ("none", "sine", "herschel"):
                for dd in ({},) if cls == "HanserPSF" else (dict(dual=boolv(False)), dict(dual=boolv(True))):
                    pars = [("odd", "even")] if not thorough else [("odd", "even"), ("even", "odd")]
                    for zp, p in pars:
                        rep.spawn(model, cls, psf_kw(zp, p, vec_corr=vc, condition=cond, **dd), False)
        base = psf_kw("even", "odd", vec_corr="total", condition="sine", **({} if cls == "HanserPSF" else dict(dual=boolv(False))))
        rep.spawn(model, cls, base, False)
        for at in ("wl", "res", "zres"):
            rep.spawn(model, cls, base, False, (at, fl(at + "2", 1)))
    rep.spawn(model, "HanserPSF", psf_kw("odd", "even", vec_corr="none", condition="sine"), True)
    rep.spawn(model, "HanserPSF", psf_kw("odd", "odd", vec_corr="total", condition="herschel"), True)
    for how in ("apply_aberration", "apply_named_aberration", "apply_pupil"):
        for p in ("even", "odd"):
            rep.spawn(aberrated, psf_kw("odd", p, vec_corr="none", condition="sine"), how)
    for cls, kw in micro_cases(thorough):
        for os_ in (1, 3):
            for mdl in ("hanser", "sheppard") if thorough or os_ == 3 else ("hanser",):
                d = micro_kw("even" if os_ == 3 else "odd", model=mdl, oversample_factor=num(os_), **kw)
                rep.spawn(microscope, cls, d, f"{cls}({', '.join(sorted(kw))}) model {mdl} factor {os_}")
    for par in ("odd", "even"):
        for po in (False, True):
            for it in (1, 2, 3) if thorough else (1, 2):
                rep.spawn(retrieval, par, po, it)
        for op in ("fit_to_zernikes", "generate_psf", "generate_psf(size)", "generate_psf(zsize)", "generate_psf(zrange)"):
            rep.spawn(result, par, op)
    for po in (False, True):
        rep.spawn(wrapper, po)


CHECKS = {"C05": c05}
