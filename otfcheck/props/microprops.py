"""Properties of pyotf.microscope."""
from ..check import *
from .psfmodels import (Samples, expect_finite, expect_kind, expect_nonneg, expect_origin, expect_shape, check_mutations, full_precision, protect, read_all)

TH = (num(0), fl("th1"), fl("th2"))
SIM_KW = dict(na_exc=fl("nae"), wl_exc=fl("wle", 1), wiener=fl("w"), dc_suppress=boolv(True))
OS = isz("os", 3, 1).term  # any oversampling factor greater than one
MS = Samples({"os": [3, 7, 5, 11]})


def fac(os_):
    return intv(os_) if os_ is OS else num(os_)


def micro_cases(thorough):
    """(class, keyword arguments beyond the common ones)."""
    c = [("WidefieldMicroscope", {})]
    for ph in (fl("ph"), num(0)):
        c.append(("ConfocalMicroscope", dict(wl_exc=fl("wle", 1), pinhole_size=ph)))
    c.append(("ApotomeMicroscope", {}))
    for cls in ("SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope"):
        ori = {} if cls == "LatticeSIMMicroscope" else {"orientations": TH}
        for w in (fl("w"), num(0), None):
            for dcs in (True, False):
                if not thorough and (w is None or w.term == P.ZERO) and dcs != (w is None):
                    continue
                c.append((cls, dict(SIM_KW, wiener=w, dc_suppress=boolv(dcs), **ori)))
    c.append(("SIM2DMicroscope", dict(SIM_KW, na_exc=None, wl_exc=None, orientations=TH)))
    c.append(("SIM3DMicroscope", dict(SIM_KW, orientations=(fl("th1"),))))
    c.append(("SIM3DMicroscope", dict(SIM_KW, wiener=None, orientations=(fl("th1"), num(0), fl("th1")))))
    c.append(("SIM2DMicroscope", dict(SIM_KW, wiener=None, dc_suppress=boolv(False), orientations=(fl("th2"), fl("th1")))))
    return c


def micro_scenarios(thorough):
    """(label, class, kwargs, oversampling factor)."""
    out = []
    for cls, kw in micro_cases(thorough):
        for os_ in (1, 3, 5) if thorough else (1, 3):
            for par in ("even", "odd"):
                for model in ("hanser", "sheppard"):
                    if not thorough and model == "sheppard" and (os_, par) != (3, "even"):
                        continue
                    d = micro_kw(par, model=model, oversample_factor=num(os_), **kw)
                    out.append((mlabel(cls, d, os_, par), cls, d, os_))
        if cls != "ApotomeMicroscope":
            for par in ("even", "odd") if thorough or cls == "WidefieldMicroscope" else ("even",):
                d = micro_kw(par, oversample_factor=fac(OS), **kw)
                out.append((mlabel(cls, d, OS, par), cls, d, OS))
        # options passed through to the emission model
        first = dict(kw)
        for extra, name in ((dict(zres=fl("zres", 1), zsize=size_sym("zsize", "odd")), "zres, zsize given"),
                            (dict(zres=fl("zres", 1), zsize=size_sym("zsize", "even")), "zres, even zsize given"),
                            (dict(vec_corr="total", condition="sine"), "total, sine"),
                            (dict(vec_corr=None, condition=None), "default correction and condition")):
            for os_ in (1, 3) if thorough else (3,):
                d = micro_kw("even", oversample_factor=num(os_), **first)
                d.update(extra)
                d = {k: v for k, v in d.items() if k not in ("vec_corr", "condition") or v is not None}
                out.append((mlabel(cls, d, os_, "even", name), cls, d, os_))
    return out


def mlabel(cls, d, os_, par, extra=""):
    t = f"{cls}(model={d['model']}, oversample_factor={"any" if os_ is OS else os_}, size {par}"
    if len(d.get("orientations", TH)) != 3 or d.get("orientations", TH)[0].term != TH[0].term:
        t += f", {len(d['orientations'])} orientations"
    for k in ("wiener", "dc_suppress", "pinhole_size"):
        if k in d:
            v = d[k]
            t += f", {k}=" + ("None" if v is None else str(bool(v.term.const())) if k[0] == "d" else "0" if v.term.is_zero() else "positive")
    return t + (", " + extra if extra else "") + ")"


def mk_micro(lab, cls, d):
    return lab.call(lab.g("microscope", cls), **d)


def fine_model(lab, d, os_, **over):
    """The emission model the documentation prescribes for these arguments."""
    I = lab.I
    n, px = d["size"], d["pixel_size"]
    kw = dict(na=d["na"], ni=d["ni"], wl=d["wl"], zres=d.get("zres", px), zsize=d.get("zsize", n),
              size=intv(n.term * os_), res=AV((), "f", F(1), px.term / os_, pt="float"),
              vec_corr=d.get("vec_corr", "none"), condition=d.get("condition", "sine"))
    kw.update(over)
    cls = {"hanser": "HanserPSF", "sheppard": "SheppardPSF"}[d["model"]]
    return lab.call(lab.g("otf", cls), **kw), kw


def fine_psf(lab, d, os_, **over):
    o, kw = fine_model(lab, d, os_, **over)
    if not o.ok:
        return o, kw
    return lab.get(o.value, "PSFi"), kw


def ref_micro(lab, cls, d, os_):
    """(oversampled reference PSF, camera PSF) outcomes."""
    p, kw = fine_psf(lab, d, os_)
    if not p.ok:
        return p, p
    if cls == "ConfocalMicroscope":
        e, _ = fine_psf(lab, d, os_, wl=d["wl_exc"])
        if not e.ok:
            return e, e
        p = refcall(lab, "scope", "confocal", p.value, e.value, d["wl"], d["na"], kw["res"], d["pinhole_size"])
    elif cls == "ApotomeMicroscope":
        p = refcall(lab, "scope", "apotome", p.value, d["wl"], d["na"], kw["size"], kw["res"])
    elif "SIM" in cls:
        coh, dc = {"SIM2DMicroscope": (False, False), "SIM3DMicroscope": (False, True), "LatticeSIMMicroscope": (True, True)}[cls]
        ori = d.get("orientations", (num(0), AV((), "f", F(0), P.as_poly(P.mk_atom("pi", (), pos=True)) / 2 if False else half_pi(), pt="float")))
        p = refcall(lab, "scope", "sim", p.value, d["ni"], d["na"] if d["na_exc"] is None else d["na_exc"],
                    d["wl"] if d["wl_exc"] is None else d["wl_exc"], kw["res"], kw["zres"], d["wiener"], boolv(coh), boolv(dc),
                    d["dc_suppress"], ori)
    if not p.ok:
        return p, p
    return p, refcall(lab, "scope", "to_camera", p.value, d["size"], fac(os_))


def half_pi():
    from .. import npmodel

    return npmodel.PI / 2


def micro_formula(rep, label, cls, d, os_):
    lab = Lab()
    o = mk_micro(lab, cls, d)
    if not rep.need("constructor completes", label, o):
        return
    fine, cam = ref_micro(lab, cls, d, os_)
    for at, ref in (("model_psf", fine), ("PSF", cam)):
        g = lab.get(o.value, at)
        if rep.need(f"{at} can be read", label, g):
            if ref.ok:
                compare(rep, f"{at} equals the reference model", label, lab, g.value, ref.value, MS)
            else:
                rep.undecided("reference", label, ref.why)
    rep.seen(lab)


def c32(rep, thorough):
    for s in micro_scenarios(thorough):
        rep.spawn(micro_formula, *s)


def micro_pairs(rep, thorough):
    for s in micro_scenarios(thorough):
        rep.spawn(micro_pair, *s)


def micro_pair(rep, label, cls, d, os_):
    lab = Lab()
    o = mk_micro(lab, cls, d)
    if not rep.need("constructor completes", label, o):
        return
    p, t = lab.get(o.value, "PSF"), lab.get(o.value, "OTF")
    if rep.need("PSF can be read", label, p) and rep.need("OTF can be read", label, t):
        r = refcall(lab, "optics", "centred_fft", p.value, (num(0), num(1), num(2)))
        if r.ok:
            compare(rep, "OTF is the centred transform of PSF", label, lab, t.value, r.value, MS)
        else:
            rep.undecided("OTF is the centred transform of PSF", label, r.why)
    rep.seen(lab)


def micro_origin(rep, thorough):
    for s in micro_scenarios(thorough):
        rep.spawn(micro_centre, *s)


def micro_centre(rep, label, cls, d, os_):
    lab = Lab()
    o = mk_micro(lab, cls, d)
    if not rep.need("constructor completes", label, o):
        return
    fine, cam = ref_micro(lab, cls, d, os_)
    refs = {"model_psf": fine, "PSF": cam}
    if cam.ok:
        refs["OTF"] = refcall(lab, "optics", "centred_fft", cam.value, (num(0), num(1), num(2)))
    for at in ("model_psf", "PSF", "OTF"):
        g = lab.get(o.value, at)
        if not rep.need(f"{at} can be read", label, g):
            continue
        rule = f"origin of {at} is at n // 2 on every axis"
        if lab.av(g.value) is not None and expect_origin(rep, rule, label, lab, g.value, "k" if at == "OTF" else "r"):
            rep.ok(rule, label, "layout")
        elif at in refs and refs[at].ok:
            compare(rep, rule, label, lab, g.value, refs[at].value, MS)
        else:
            rep.undecided(rule, label, "layout not derivable")
    rep.seen(lab)


def micro_shapes(rep, thorough):
    for s in micro_scenarios(thorough):
        rep.spawn(micro_shape, *s)


def cases(lab, v, f):
    """Apply f to each case of a conditional value."""
    v = lab.I.res(v)
    if isinstance(v, Cond):
        s0 = lab.I.st
        for t in (True, False):
            lab.I.st = s0.assume(v.c, t)
            cases(lab, v, f)
        lab.I.st = s0
    else:
        f(v)


def micro_shape(rep, label, cls, d, os_):
    lab = Lab()
    o = mk_micro(lab, cls, d)
    if not rep.need("constructor completes", label, o):
        return
    n = d["size"].term
    nz = d["zsize"].term if "zsize" in d else n
    for at, shape in (("PSF", (nz, n, n)), ("OTF", (nz, n, n)), ("model_psf", (nz, n * os_, n * os_))):
        g = lab.get(o.value, at)
        if rep.need(f"{at} can be read", label, g):
            cases(lab, g.value, lambda v: expect_shape(rep, f"shape of a microscope's {at}", label, lab, v, shape))
    rep.seen(lab)


def micro_values(rep, thorough):
    for s in micro_scenarios(thorough):
        rep.spawn(micro_value, *s)


def micro_value(rep, label, cls, d, os_):
    lab = Lab()
    o = mk_micro(lab, cls, d)
    if not rep.need("constructor completes", label, o):
        return
    for at, kind in (("PSF", "f"), ("OTF", "c")):
        g = lab.get(o.value, at)
        if not rep.need(f"{at} can be read", label, g):
            continue

        def one(v):
            expect_kind(rep, f"a microscope's {at} is {'real' if kind == 'f' else 'complex'} floating point", label, lab, v, kind)
            if kind == "f" and ("SIM" not in cls or d["wiener"] is None and d["dc_suppress"].term.is_zero()):
                expect_nonneg(rep, "a microscope's PSF is nonnegative", label, lab, v, MS)

        cases(lab, g.value, one)
    full_precision(rep, label, lab)
    rep.seen(lab)


# ------------------------------------------------------------------ normalisation and binning
def c20(rep, thorough):
    for s in micro_scenarios(thorough):
        rep.spawn(camera, *s)


def camera(rep, label, cls, d, os_):
    lab = Lab()
    o = mk_micro(lab, cls, d)
    if not rep.need("constructor completes", label, o):
        return
    f, p = lab.get(o.value, "model_psf"), lab.get(o.value, "PSF")
    if not (rep.need("model_psf can be read", label, f) and rep.need("PSF can be read", label, p)):
        return
    s = refcall(lab, "scope", "total", p.value)
    if s.ok:
        compare(rep, "the camera PSF sums to one", label, lab, s.value, num(1), MS)
    r = refcall(lab, "scope", "to_camera", f.value, d["size"], fac(os_))
    if r.ok:
        compare(rep, "the camera PSF integrates the oversampled one over centred pixels", label, lab, p.value, r.value, MS)
    rep.seen(lab)


# ------------------------------------------------------------------ histories
MREADS = (("PSF", "OTF", "model_psf"), ("PSF",), ("OTF",), ())


def sim_steps():
    return [("na_exc", fl("nae2")), ("wl_exc", fl("wle2", 1)), ("wiener", fl("w2")), ("wiener", num(0)), ("wiener", None),
            ("coherent", None), ("dc", None), ("dc_suppress", None), ("orientations", (fl("th3"),)), ("orientations", (fl("th3"), fl("th4"), num(0)))]


def micro_histories(thorough):
    out = []
    base = dict(SIM_KW, orientations=TH)
    for os_, par in ((1, "even"), (3, "odd")) if not thorough else ((1, "even"), (1, "odd"), (3, "even"), (3, "odd")):
        for ph in (fl("ph"), num(0)):
            d = micro_kw(par, oversample_factor=num(os_), wl_exc=fl("wle", 1), pinhole_size=ph)
            for st in (("pinhole_size", fl("ph2")), ("pinhole_size", num(0)), ("wl_exc", fl("wle2", 1))):
                out.append(("ConfocalMicroscope", d, os_, par, [st]))
            out.append(("ConfocalMicroscope", d, os_, par, [("wl_exc", fl("wle2", 1)), ("pinhole_size", fl("ph2"))]))
            out.append(("ConfocalMicroscope", d, os_, par, [("pinhole_size", fl("ph2")), ("wl_exc", fl("wle2", 1))]))
        for coh in (False, True):
            for dc in (False, True):
                if coh and not dc and not thorough:
                    continue
                for w in (fl("w"), None):
                    d = micro_kw(par, oversample_factor=num(os_), **dict(base, coherent=boolv(coh), dc=boolv(dc), wiener=w))
                    st = sim_steps()
                    for x in st:
                        out.append(("BaseSIMMicroscope", d, os_, par, [x]))
                    for x, y in itertools.permutations(st, 2):
                        if thorough and os_ == 1 or (x[0], y[0]) in (("dc", "coherent"), ("wiener", "orientations"), ("wl_exc", "na_exc")):
                            out.append(("BaseSIMMicroscope", d, os_, par, [x, y]))
    return out


MHS = Samples()


def c02(rep, thorough):
    for cls, d, os_, par, steps in micro_histories(thorough):
        for rd in MREADS if len(steps) == 1 and os_ == 1 or thorough else MREADS[:1]:
            rep.spawn(micro_history, cls, d, os_, par, steps, rd)
    rep.spawn(oversampling_history)


def flip(cur, name):
    return boolv(cur[name].term.is_zero())


def micro_history(rep, cls, d, os_, par, steps, rd):
    lab = Lab()
    t = mlabel(cls, d, os_, par, f"coherent={not d['coherent'].term.is_zero()}, dc={not d['dc'].term.is_zero()}" if "coherent" in d else "")
    label = f"{t}: " + "; ".join(f"read {','.join(rd) or 'nothing'}; set {n}" + (" to None" if v is None and n == "wiener" else "") for n, v in steps)
    o = mk_micro(lab, cls, d)
    if not rep.need("constructor completes", label, o):
        return
    o = o.value
    cur = dict(d)
    for name, v in steps:
        protect(lab, read_all(rep, lab, o, label, rd))
        if name in ("coherent", "dc", "dc_suppress"):
            v = flip(cur, name)
        if isinstance(cur[name], AV) and isinstance(v, AV):
            assume_ne(lab, v, cur[name])
        if not rep.need(f"{name} can be assigned", label, lab.set(o, name, v)):
            return
        cur[name] = v
    f = mk_micro(lab, cls, cur)
    if not f.ok:
        rep.undecided("fresh microscope", label, f.why)
        return
    for at in ("PSF", "OTF", "model_psf"):
        a, b = lab.get(o, at), lab.get(f.value, at)
        if rep.need(f"{at} can be read", label, a):
            if b.ok:
                compare(rep, "outputs equal those of a freshly built microscope", f"{label}: {at}", lab, a.value, b.value, MHS)
            else:
                rep.undecided("fresh microscope", label, b.why)
    for name, v in steps:
        a = lab.get(o, name)
        if rep.need(f"{name} can be read", label, a):
            x, y = lab.I.res(a.value), cur[name]
            if y is None or x is None or isinstance(y, tuple):
                x = x if not isinstance(x, ListRef) else lab.I.cell(x).items
                same = x is None and y is None or isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(
                    relate(lab, p, q)[0] == "ok" for p, q in zip(x, y))
                (rep.ok if same else rep.bad)("parameters read back as assigned", f"{label}: {name}", f"{describe_v(x)} / {describe_v(y)}")
            else:
                compare(rep, "parameters read back as assigned", f"{label}: {name}", lab, x, y, MHS)
    check_mutations(rep, "arrays returned earlier are not modified", lab, label)
    rep.seen(lab)


def oversampling_history(rep):
    lab = Lab()
    d = micro_kw("even", oversample_factor=num(1))
    o = mk_micro(lab, "WidefieldMicroscope", d)
    label = "WidefieldMicroscope: set oversample_factor"
    if not rep.need("constructor completes", label, o):
        return
    s = lab.set(o.value, "oversample_factor", num(3))
    if s.status == "raises":
        rep.ok("oversampling is either fixed or follows an assignment", label, s.why)
        return
    if not rep.need("oversample_factor can be assigned", label, s):
        return
    f = mk_micro(lab, "WidefieldMicroscope", dict(d, oversample_factor=num(3)))
    a, b = lab.get(o.value, "PSF"), lab.get(f.value, "PSF") if f.ok else f
    if rep.need("oversampling is either fixed or follows an assignment", label, a, "reading the PSF afterwards raises") and b.ok:
        compare(rep, "oversampling is either fixed or follows an assignment", label, lab, a.value, b.value, MHS)
    rep.seen(lab)


CHECKS = {"C02": c02, "C20": c20, "C32": c32}
