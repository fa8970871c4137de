"""Properties of the PSF models (pyotf.otf)."""
import itertools

from ..check import *

CLASSES = ("HanserPSF", "SheppardPSF")
OUTPUTS = ("PSFa", "OTFa", "PSFi", "OTFi")
NCOMP = {"none": 1, "x": 2, "y": 2, "z": 2, "total": 6}


def modes(thorough, cls=None):
    """(vec_corr, condition) combinations."""
    return list(itertools.product(VEC, COND))


def dual_opts(cls):
    return ({},) if cls == "HanserPSF" else ({"dual": boolv(False)}, {"dual": boolv(True)})


def tag(cls, kw):
    t = f"{cls}(vec_corr={kw.get('vec_corr', 'none')}, condition={kw.get('condition', 'sine')}"
    if "dual" in kw:
        t += f", dual={'True' if kw['dual'].term == P1 else 'False'}"
    return t + ")"


def parities(thorough):
    return list(itertools.product(("odd", "even"), repeat=2)) if thorough else [("odd", "even"), ("even", "odd")]


def scenarios(thorough, classes=CLASSES, zrange=True):
    """List of (label, cls, kwargs)."""
    out = []
    for cls in classes:
        for vc, cond in modes(thorough):
            for d in dual_opts(cls):
                for zp, p in parities(thorough):
                    kw = psf_kw(zp, p, vec_corr=vc, condition=cond, **d)
                    out.append((f"{tag(cls, kw)} size {p}, zsize {zp}", cls, kw))
    return out


def ref_psf(lab, cls, kw, pupil=None, zrange=None):
    """Reference amplitude array and the attribute it belongs to."""
    if cls == "HanserPSF":
        if zrange is None:
            z = refcall(lab, "optics", "default_zrange", kw["zsize"], kw["zres"])
            if not z.ok:
                return "PSFa", z
            zrange = z.value
        return "PSFa", refcall(lab, "optics", "hanser_PSFa", kw["wl"], kw["na"], kw["ni"], kw["res"], kw["size"], zrange,
                               kw["vec_corr"], kw["condition"], pupil)
    return "OTFa", refcall(lab, "optics", "sheppard_OTFa", kw["wl"], kw["na"], kw["ni"], kw["res"], kw["size"], kw["zres"],
                           kw["zsize"], kw["vec_corr"], kw["condition"], kw.get("dual", boolv(False)))


def formula(rep, label, c, kw):
    lab = Lab()
    o = make(lab, c, kw)
    if not rep.need("constructor completes", label, o):
        return
    at, ref = ref_psf(lab, c, kw)
    g = lab.get(o.value, at)
    if rep.need(f"{at} can be read", label, g):
        if ref.ok:
            if compare(rep, f"{at} equals the published formula", label, lab, g.value, ref.value) and c == "SheppardPSF":
                compare(rep, f"{at} equals the published formula where the frequency pitches nearly agree", label, lab, g.value, ref.value, close_pitches(kw))
        else:
            rep.undecided("reference", label, ref.why)
    rep.seen(lab)


def close_pitches(kw):
    """Samples whose axial frequency pitch is within a percent of the lateral one."""
    odd = lambda v: 1 if str(v.term.single()[0][0][0].par) == "1" else 0
    n = [50 + odd(kw["size"]), 60 + odd(kw["size"]), 36 + odd(kw["size"])]
    nz = [50 + odd(kw["zsize"]), 56 + odd(kw["zsize"]), 36 + odd(kw["zsize"])]
    res = [0.1211, 0.0913, 0.1173]
    zres = [r * a / b * f for r, a, b, f in zip(res, n, nz, (1.0091, 0.9923, 1.0019))]
    return Samples(dict(wl=[0.6013, 0.5231, 0.5013], na=[1.0017, 1.2013, 0.9023], ni=[1.3303, 1.5107, 1.3301], res=res, zres=zres, size=n, zsize=nz), n=3)


def any_pupil(rep, vc, cond, p):
    lab = Lab()
    kw = psf_kw("odd", p, vec_corr=vc, condition=cond)
    z = lab.array("zr", (isym("nz", 4),), unit=1)
    label = f"{tag('HanserPSF', kw)} size {p}"
    o = make(lab, "HanserPSF", dict(kw, zrange=z))
    if not rep.need("constructor completes", label + " with zrange", o):
        return
    g = lab.get(o.value, "PSFa")
    ref = ref_psf(lab, "HanserPSF", kw, zrange=z)[1]
    if rep.need("PSFa can be read", label + " with zrange", g) and ref.ok:
        compare(rep, "PSFa at the requested focal positions", label, lab, g.value, ref.value)
    n = kw["size"].term
    pupil = lab.array("pupil", (n, n), kind="c")
    a = lab.meth(o.value, "apply_pupil", pupil)
    ref = ref_psf(lab, "HanserPSF", kw, pupil=pupil, zrange=z)[1]
    if rep.need("apply_pupil completes", label, a) and ref.ok:
        g = lab.get(o.value, "PSFa")
        if rep.need("PSFa can be read", label + " after apply_pupil", g):
            compare(rep, "PSFa of an arbitrary pupil", label, lab, g.value, ref.value)
    rep.seen(lab)


def c11(rep, thorough):
    for label, c, kw in scenarios(True, ("HanserPSF",)):
        rep.spawn(formula, label, c, kw)
    # arbitrary focal positions and arbitrary pupil functions
    for vc, cond in modes(thorough):
        for p in ("odd", "even"):
            rep.spawn(any_pupil, vc, cond, p)


def c31(rep, thorough):
    for label, c, kw in scenarios(thorough, ("SheppardPSF",)):
        rep.spawn(formula, label, c, kw)


# ------------------------------------------------------------------ transform pairs
def c07(rep, thorough):
    from .utilprops import fft_pairs

    fft_pairs(rep, thorough)
    for s in scenarios(thorough):
        rep.spawn(model_pairs, *s)
    from .microprops import micro_pairs

    micro_pairs(rep, thorough)


def model_pairs(rep, label, cls, kw):
    lab = Lab()
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    pairs(rep, lab, o.value, cls, label)
    if cls == "HanserPSF":
        n = kw["size"].term
        pupil = lab.array("pupil", (n, n), kind="c")
        a = lab.meth(o.value, "apply_pupil", pupil)
        if rep.need("apply_pupil completes", label, a):
            pairs(rep, lab, o.value, cls, label + " after apply_pupil")
    rep.seen(lab)


def pairs(rep, lab, o, cls, label):
    v = {}
    for at in OUTPUTS:
        g = lab.get(o, at)
        if rep.need(f"{at} can be read", label, g):
            v[at] = g.value
    if len(v) < 4:
        return
    ax = (num(1), num(2), num(3))
    for rule, got, f, arg in (
        ("PSFi is the summed squared modulus of PSFa", "PSFi", "intensity", (v["PSFa"],)),
        ("OTFi is the centred transform of PSFi", "OTFi", "centred_fft", (v["PSFi"], (num(0), num(1), num(2)))),
        ("OTFa is the centred transform of PSFa", "OTFa", "centred_fft", (v["PSFa"], ax)),
        ("PSFa is the centred inverse transform of OTFa", "PSFa", "centred_ifft", (v["OTFa"], ax)),
    ):
        r = refcall(lab, "optics", f, *arg)
        if r.ok:
            compare(rep, rule, label, lab, v[got], r.value)
        else:
            rep.undecided(rule, label, r.why)


# ------------------------------------------------------------------ shapes, kinds
def expect_shape(rep, rule, label, lab, v, shape):
    cases = []
    split_cases(lab, v, None, None, cases)
    if len(cases) > 1:
        s0 = lab.I.st
        for s, v, _ in cases:
            lab.I.st = s
            expect_shape(rep, rule, label, lab, v, shape)
        lab.I.st = s0
        return
    a = lab.av(v)
    if a is None or a.shape is None:
        rep.undecided(rule, label, f"no abstract array: {describe_v(v)}")
        return
    shape = tuple(P.as_poly(s) for s in shape)
    r = shapes_same(lab, a.shape, shape)
    if r is True:
        rep.ok(rule, label, shp(shape))
    elif r is False:
        rep.bad(rule, label, f"shape is {shp(a.shape)}, expected {shp(shape)}")
    else:
        rep.undecided(rule, label, f"shape {shp(a.shape)} vs {shp(shape)}")


# ------------------------------------------------------------------ histories
SETTERS = {
    "wl": lambda kw: fl("wl2", 1), "na": lambda kw: fl("na2"), "ni": lambda kw: fl("ni2"), "res": lambda kw: fl("res2", 1),
    "size": lambda kw: size_sym("size2", "odd"), "zres": lambda kw: fl("zres2", 1), "zsize": lambda kw: size_sym("zsize2", "even"),
    "vec_corr": lambda kw: "x" if kw["vec_corr"] != "x" else "total", "condition": lambda kw: "herschel" if kw["condition"] != "herschel" else "sine",
}
HS = Samples()


def setters(cls):
    d = dict(SETTERS)
    if cls == "SheppardPSF":
        d["dual"] = lambda kw: boolv(not (kw["dual"].term == P1))
    return d


def read_all(rep, lab, o, label, names, keep=None):
    v = {}
    for at in names:
        g = lab.get(o, at)
        if rep.need(f"{at} can be read", label, g):
            v[at] = g.value
    return v


def outputs_equal(rep, rule, lab, o, fresh, label, samples, names):
    for at in names:
        a, b = lab.get(o, at), lab.get(fresh, at)
        if not rep.need(f"{at} can be read", label, a):
            continue
        if not b.ok:
            rep.undecided(rule, label, f"fresh object: {b.why}")
            continue
        compare(rep, rule, f"{label}: {at}", lab, a.value, b.value, samples)


def protect(lab, vals):
    for at, v in vals.items():
        if isinstance(v, Ref):
            lab.own(v, f"an array returned earlier ({at})")


def check_mutations(rep, rule, lab, label):
    ev = lab.events("mutate")
    if ev:
        for e in ev:
            rep.bad(rule, label, f"{e.msg} at {fmt_loc(e.loc)}")
    else:
        rep.ok(rule, label)


def history(rep, cls, kw, steps, reads, label, zrange_kw=None):
    """ctor; [read; set]*; compare every output and parameter with a freshly built model."""
    lab = Lab()
    ckw = dict(kw)
    if zrange_kw is not None:
        ckw["zrange"] = zrange_kw(lab)
    o = make(lab, cls, ckw)
    if not rep.need("constructor completes", label, o):
        return None
    o = o.value
    cur = dict(ckw)
    for (name, mk), rd in zip(steps, reads):
        v = read_all(rep, lab, o, label, rd)
        protect(lab, v)
        val = mk(lab, cur) if name == "zrange" else mk(cur)
        if name in cur:
            assume_ne(lab, val, cur[name])
        s = lab.set(o, name, val)
        if not rep.need(f"{name} can be assigned", label, s):
            return None
        cur[name] = val
        if cls == "HanserPSF" and name in ("zsize", "zres"):
            cur.pop("zrange", None)
    fresh = make(lab, cls, cur)
    if not fresh.ok:
        rep.undecided("fresh model", label, fresh.why)
        return None
    outputs_equal(rep, "outputs equal those of a freshly built model", lab, o, fresh.value, label, HS, OUTPUTS)
    params = ["wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition"] + (["zrange"] if cls == "HanserPSF" else ["dual"])
    for at in params:
        a, b = lab.get(o, at), lab.get(fresh.value, at)
        if rep.need(f"parameter {at} can be read", label, a) and b.ok:
            x, y = lab.I.res(a.value), lab.I.res(b.value)
            if isinstance(x, str) or isinstance(y, str):
                (rep.ok if x == y else rep.bad)("parameters read back as assigned", f"{label}: {at}", f"{x!r} / {y!r}")
            else:
                compare(rep, "parameters read back as assigned", f"{label}: {at}", lab, x, y, HS)
    check_mutations(rep, "arrays returned earlier are not modified", lab, label)
    rep.seen(lab)
    return lab, o, cur


def zr_mk(name, m="nz2"):
    return lambda lab, cur: lab.array(name, (isym(m, 4),), unit=1)


def c01(rep, thorough):
    combos = [("none", "none"), ("total", "sine"), ("x", "herschel")]
    if thorough:
        combos = list(itertools.product(VEC, COND))
    # every parameter after every output has been read, and after each single output has been read
    for cls in CLASSES:
        for d in dual_opts(cls):
            for vc, cond in combos:
                kw = psf_kw("odd", "even", vec_corr=vc, condition=cond, **d)
                subs = [OUTPUTS, ("PSFi",), ("OTFi",), ("PSFa",), ("OTFa",)] if (vc, cond) == combos[0] or thorough else [OUTPUTS]
                for name, mk in setters(cls).items():
                    for rd in subs:
                        rep.spawn(history, cls, kw, [(name, mk)], [rd], f"{tag(cls, kw)}: read {','.join(rd)}; set {name}")
    # focal positions given explicitly
    kw = psf_kw("odd", "even", vec_corr="none", condition="sine")
    for vc in ("none", "total"):
        kw = dict(kw, vec_corr=vc)
        rep.spawn(history, "HanserPSF", kw, [("zrange", zr_mk("zr2"))], [OUTPUTS], f"{tag('HanserPSF', kw)}: read all; set zrange")
        for name, mk in setters("HanserPSF").items():
            rep.spawn(history, "HanserPSF", kw, [(name, mk)], [OUTPUTS], f"{tag('HanserPSF', kw)} with zrange: read all; set {name}",
                    zrange_kw=lambda lab: lab.array("zr", (isym("nz", 4),), unit=1))
        for name in ("zsize", "zres"):
            rep.spawn(history, "HanserPSF", kw, [("zrange", zr_mk("zr2")), (name, setters("HanserPSF")[name])], [OUTPUTS, OUTPUTS],
                    f"{tag('HanserPSF', kw)}: set zrange; set {name}")
    # two changes in a row
    pairs2 = list(itertools.permutations(SETTERS, 2))
    for cls in CLASSES:
        kw = psf_kw("even", "odd", vec_corr="total", condition="sine", **dual_opts(cls)[0])
        for i, (a, b) in enumerate(pairs2):
            if not thorough and i % 6:
                continue
            for rd in ([OUTPUTS, ()], [OUTPUTS, ("OTFi",)], [("PSFi",), OUTPUTS]) if thorough else ([OUTPUTS, ("PSFi",)],):
                rep.spawn(history, cls, kw, [(a, SETTERS[a]), (b, SETTERS[b])], rd, f"{tag(cls, kw)}: set {a}, set {b}, reads {'/'.join(','.join(r) for r in rd)}")
    # applied pupils
    for vc, cond in combos:
        for rd in (OUTPUTS, ("OTFi",), ()):
            rep.spawn(pupil_history, vc, cond, rd)
    # assigning the value a parameter already has
    for cls in CLASSES:
        rep.spawn(same_value, cls)


def same_value(rep, cls):
    lab = Lab()
    kw = psf_kw("odd", "even", vec_corr="total", condition="sine", **dual_opts(cls)[0])
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", cls, o):
        return
    before = read_all(rep, lab, o.value, cls, OUTPUTS)
    for name in setters(cls):
        if rep.need(f"{name} can be assigned", f"{cls} same value", lab.set(o.value, name, kw[name])):
            for at, v in before.items():
                g = lab.get(o.value, at)
                if rep.need(f"{at} can be read", cls, g):
                    compare(rep, "assigning the current value changes nothing", f"{cls}: {name}: {at}", lab, g.value, v, HS)
    rep.seen(lab)


def pupil_history(rep, vc, cond, rd):
    kw = psf_kw("odd", "even", vec_corr=vc, condition=cond)
    label = f"{tag('HanserPSF', kw)}: read {','.join(rd) or 'nothing'}; apply_pupil"
    lab = Lab()
    o = make(lab, "HanserPSF", kw)
    if not rep.need("constructor completes", label, o):
        return
    o = o.value
    fresh = make(lab, "HanserPSF", kw).value
    n = kw["size"].term
    p1, p2 = lab.array("pupil1", (n, n), kind="c"), lab.array("pupil2", (n, n), kind="c")
    if not rep.need("apply_pupil completes", label, lab.meth(fresh, "apply_pupil", p2)):
        return
    protect(lab, read_all(rep, lab, o, label, rd))
    if rep.need("apply_pupil completes", label, lab.meth(o, "apply_pupil", p1)):
        protect(lab, read_all(rep, lab, o, label, rd))
        if rep.need("apply_pupil completes", label, lab.meth(o, "apply_pupil", p2)):
            outputs_equal(rep, "outputs reflect the pupil applied last", lab, o, fresh, label, HS, OUTPUTS)
            # a later parameter change discards the pupil
            nwl = fl("wl2", 1)
            assume_ne(lab, nwl, kw["wl"])
            if rep.need("wl can be assigned", label, lab.set(o, "wl", nwl)):
                f2 = make(lab, "HanserPSF", dict(kw, wl=nwl))
                if f2.ok:
                    outputs_equal(rep, "outputs follow a parameter changed after apply_pupil", lab, o, f2.value, label, HS, OUTPUTS)
    check_mutations(rep, "arrays returned earlier are not modified", lab, label)
    rep.seen(lab)


# ------------------------------------------------------------------ origin
def c06(rep, thorough):
    for s in scenarios(True):
        rep.spawn(origin, *s)
    from .microprops import micro_origin

    micro_origin(rep, thorough)


def org_of(lab, v, k):
    a = lab.av(v)
    if a is None or a.lay is None:
        return None
    l = a.lay[k]
    return l if isinstance(l, AxInfo) else None


def expect_origin(rep, rule, label, lab, v, dom, axes=(-3, -2, -1), strict_tw=False):
    """Layout obligation.  Returns True when decided positively on every axis."""
    a = lab.av(v)
    good = True
    for k in axes:
        n = a.shape[k]
        l = org_of(lab, v, k)
        want = P.floordiv(n, P.as_poly(2))
        if l is None:
            good = False
            continue
        d = P.reduce_mod(l.org - want, n)
        if l.dom == dom and d.is_zero():
            continue
        good = False
    return good


def origin(rep, label, cls, kw):
    """Origin of every output at n // 2: dataflow of axis layouts through fftfreq / arange / shifts,
    confirmed against the centred reference value when the layout is not derivable."""
    lab = Lab()
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    at0, ref = ref_psf(lab, cls, kw)
    refs = {}
    if ref.ok:
        if cls == "HanserPSF":
            psfa = ref.value
            otfa = refcall(lab, "optics", "centred_fft", psfa, (num(1), num(2), num(3))).value
        else:
            otfa = ref.value
            psfa = refcall(lab, "optics", "centred_ifft", otfa, (num(1), num(2), num(3))).value
        psfi = refcall(lab, "optics", "intensity", psfa).value
        refs = {"PSFa": psfa, "OTFa": otfa, "PSFi": psfi, "OTFi": refcall(lab, "optics", "centred_fft", psfi, (num(0), num(1), num(2))).value}
    for at in OUTPUTS:
        g = lab.get(o.value, at)
        if not rep.need(f"{at} can be read", label, g):
            continue
        rule = f"origin of {at} is at n // 2 on every axis"
        if expect_origin(rep, rule, label, lab, g.value, "r" if at[0] == "P" else "k"):
            rep.ok(rule, label, "layout")
        elif at in refs:
            compare(rep, rule, label, lab, g.value, refs[at])
        else:
            rep.undecided(rule, label, "layout not derivable")
    if cls == "HanserPSF":
        z = lab.get(o.value, "zrange")
        r = refcall(lab, "optics", "default_zrange", kw["zsize"], kw["zres"])
        if rep.need("zrange can be read", label, z) and r.ok:
            compare(rep, "the default focal positions vanish at index zsize // 2", label, lab, z.value, r.value)
    rep.seen(lab)


# ------------------------------------------------------------------ shapes
def c08(rep, thorough):
    for s in scenarios(True):
        rep.spawn(model_shapes, *s)
    for vc in VEC:
        for zin in ("array", "list", "scalar", "int", "tuple"):
            rep.spawn(zrange_shapes, vc, zin)
    rep.spawn(default_shapes)
    from .microprops import micro_shapes

    micro_shapes(rep, thorough)


def model_shapes(rep, label, cls, kw):
    lab = Lab()
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    n, nz, c = kw["size"].term, kw["zsize"].term, NCOMP[kw["vec_corr"]]
    for at in OUTPUTS:
        g = lab.get(o.value, at)
        if rep.need(f"{at} can be read", label, g):
            expect_shape(rep, f"shape of {at}", label, lab, g.value, ((c,) if at.endswith("a") else ()) + (nz, n, n))
    rep.seen(lab)


def default_shapes(rep):
    """zsize and zres default to size and res."""
    for cls in CLASSES:
        for p in ("odd", "even"):
            lab = Lab()
            kw = psf_kw(par=p)
            kw.pop("zres"), kw.pop("zsize")
            label = f"{cls}, zres and zsize omitted, size {p}"
            o = make(lab, cls, kw)
            if not rep.need("constructor completes", label, o):
                continue
            n = kw["size"].term
            for at in OUTPUTS:
                g = lab.get(o.value, at)
                if rep.need(f"{at} can be read", label, g):
                    expect_shape(rep, f"shape of {at}", label, lab, g.value, ((1,) if at.endswith("a") else ()) + (n, n, n))
            rep.seen(lab)


def zrange_shapes(rep, vc, zin):
    lab = Lab()
    kw = psf_kw(vec_corr=vc, condition="sine")
    if zin == "array":
        m = isym("nz", 4)
        z = lab.array("zr", (m,), unit=1)
    elif zin in ("list", "tuple"):
        m = P.as_poly(3)
        z = (fl("z0", 1, pos=False), num(0), fl("z2", 1))
        if zin == "list":
            z = lab.I.new_list(z)
    else:
        m = P.as_poly(1)
        z = fl("z0", 1, pos=False) if zin == "scalar" else num(0)
    n = kw["size"].term
    label = f"HanserPSF(vec_corr={vc}), zrange given as {zin}"
    for how in ("argument", "attribute"):
        o = make(lab, "HanserPSF", dict(kw, zrange=z) if how == "argument" else kw)
        if not rep.need("constructor completes", label, o):
            continue
        if how == "attribute" and not rep.need("zrange can be assigned", label, lab.set(o.value, "zrange", z)):
            continue
        for at in OUTPUTS:
            g = lab.get(o.value, at)
            if rep.need(f"{at} can be read", label, g):
                expect_shape(rep, f"shape of {at}", f"{label} ({how})", lab, g.value, ((NCOMP[vc],) if at.endswith("a") else ()) + (m, n, n))
    rep.seen(lab)


# ------------------------------------------------------------------ kinds, sign, finiteness
def c09(rep, thorough):
    for s in scenarios(True):
        rep.spawn(values_ok, *s)
    from .microprops import micro_values

    micro_values(rep, thorough)


def expect_kind(rep, rule, label, lab, v, kind):
    a = lab.av(v)
    if a is None or a.kind not in ("b", "i", "f", "c"):
        rep.undecided(rule, label, describe_v(v))
    elif a.kind == kind:
        rep.ok(rule, label)
    else:
        rep.bad(rule, label, f"element kind is {a.kind!r}, expected {kind!r}")


def expect_nonneg(rep, rule, label, lab, v, samples=None):
    a = lab.av(v)
    if a.kind == "c":
        rep.bad(rule, label, "the array is complex")
    elif P.is_nonneg(a.term):
        rep.ok(rule, label)
    else:
        w = witness(lab, a, lambda x: (x.real < -1e-9 * np.abs(x[np.isfinite(x)]).max(initial=1e-300)), samples)
        if w is None:
            rep.undecided(rule, label, "sign not derivable")
        elif w:
            rep.bad(rule, label, f"negative value {w}")
        else:
            rep.undecided(rule, label, "sign not derivable")


def expect_finite(rep, rule, label, lab, v, samples=None):
    a = lab.av(v)
    w = witness(lab, a, lambda x: ~np.isfinite(x), samples)
    if w is None:
        rep.undecided(rule, label, "value not evaluable")
    elif w:
        rep.bad(rule, label, f"value {w}")
    else:
        rep.ok(rule, label)


def witness(lab, a, pred, samples=None):
    """'' if no sampled element satisfies pred, a description if one does, None if not evaluable."""
    samples = samples or Samples()
    n, path = 0, lab.I.st.path
    plain = [m for m in (samples.model(i, path) for i in range(samples.n)) if m is not None]
    for m in plain + [m for m, why in samples.edges(path, (a.term,)) + samples.cover(path, (a.term,)) if not too_big(m, a.shape)]:
        try:
            with np.errstate(all="ignore"):
                x = m.array(a.term, a.shape)
        except Exception:
            continue
        n += 1
        b = pred(x)
        if b.any():
            ix = np.unravel_index(np.argmax(b), b.shape)
            return f"{x[ix]} at index {tuple(int(q) for q in ix)}"
    return "" if n else None


def values_ok(rep, label, cls, kw):
    lab = Lab()
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    for at in OUTPUTS:
        g = lab.get(o.value, at)
        if not rep.need(f"{at} can be read", label, g):
            continue
        expect_kind(rep, f"{at} is {'real' if at == 'PSFi' else 'complex'} floating point", label, lab, g.value, "f" if at == "PSFi" else "c")
        if at == "PSFi":
            expect_nonneg(rep, "PSFi is nonnegative", label, lab, g.value)
        expect_finite(rep, f"{at} is finite", label, lab, g.value)
    full_precision(rep, label, lab)
    rep.seen(lab)


def full_precision(rep, label, lab):
    ev = lab.events("narrow")
    for e in ev:
        rep.bad("no value passes through a type of reduced range or precision", label, f"{e.msg} at {fmt_loc(e.loc)}")
    if not ev:
        rep.ok("no value passes through a type of reduced range or precision", label)


# ------------------------------------------------------------------ vectorial components
def c12(rep, thorough):
    for cls in CLASSES:
        for cond in COND:
            for d in dual_opts(cls):
                for zp, p in parities(True):
                    rep.spawn(vector_identities, cls, cond, d, zp, p)


def vector_identities(rep, cls, cond, d, zp, p):
    lab = Lab()
    label = f"{tag(cls, dict(vec_corr='*', condition=cond, **d))} size {p}, zsize {zp}"
    v = {}
    for vc in VEC:
        kw = psf_kw(zp, p, vec_corr=vc, condition=cond, **d)
        o = make(lab, cls, kw)
        if not rep.need("constructor completes", label, o):
            return
        for at in ("OTFa", "PSFi"):
            g = lab.get(o.value, at)
            if not rep.need(f"{at} can be read", label, g):
                return
            v[vc, at] = g.value
    s = refcall(lab, "optics", "add", *[v[vc, "PSFi"] for vc in "xyz"])
    if s.ok:
        compare(rep, "the x, y and z intensities add up to the total", label, lab, v["total", "PSFi"], s.value)
    e = refcall(lab, "optics", "energy", v["total", "OTFa"])
    f = refcall(lab, "optics", "energy", v["none", "OTFa"])
    if e.ok and f.ok:
        g = refcall(lab, "optics", "times", num(2), f.value)
        compare(rep, "the total vectorial transfer is twice the scalar one", label, lab, e.value, g.value)
    rep.seen(lab)


# ------------------------------------------------------------------ symmetry
def c13(rep, thorough):
    for cls in CLASSES:
        for vc in VEC:
            for cond in COND if thorough else ("none", "sine"):
                for d in dual_opts(cls):
                    for zp, p in parities(True):
                        rep.spawn(symmetry, cls, vc, cond, d, zp, p)


def symmetry(rep, cls, vc, cond, d, zp, p):
    lab = Lab()
    kw = psf_kw(zp, p, vec_corr=vc, condition=cond, **d)
    label = f"{tag(cls, kw)} size {p}, zsize {zp}"
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    g = lab.get(o.value, "PSFi")
    if not rep.need("PSFi can be read", label, g):
        return
    # an even lateral grid has an unpaired Nyquist row, where tilted dipole components change sign
    lateral = p == "odd" or vc == "none"
    axial = True
    for ax, name in ((0, "z"), (1, "y"), (2, "x")):
        if ax and not lateral or not ax and not (zp == "odd" and lateral):
            continue
        r = refcall(lab, "optics", "flip_about_centre", g.value, num(ax))
        if r.ok:
            compare(rep, f"PSFi is mirror symmetric along {name} about index n // 2", label, lab, g.value, r.value)
    other = {"x": "y", "y": "x"}.get(vc, vc)
    o2 = make(lab, cls, dict(kw, vec_corr=other))
    if o2.ok:
        g2 = lab.get(o2.value, "PSFi")
        if rep.need("PSFi can be read", label, g2):
            r = refcall(lab, "optics", "transpose_lateral", g2.value)
            if r.ok:
                compare(rep, "exchanging the lateral axes exchanges the x and y corrections", label, lab, g.value, r.value)
    rep.seen(lab)


# ------------------------------------------------------------------ support
def c14(rep, thorough):
    for s in scenarios(True):
        rep.spawn(support, *s)
    from .aberprops import aber_support

    aber_support(rep, thorough)


def support(rep, label, cls, kw):
    lab = Lab()
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    g = lab.get(o.value, "PSFa")
    if not rep.need("PSFa can be read", label, g):
        return
    if cls == "HanserPSF":
        out = refcall(lab, "pupil", "outside_passband", g.value, kw["wl"], kw["na"], kw["res"], kw["size"])
        rule = "no amplitude is transmitted outside the numerical aperture"
    else:
        g = lab.get(o.value, "OTFa")
        if not rep.need("OTFa can be read", label, g):
            return
        out = refcall(lab, "optics", "outside_cone", g.value, kw["wl"], kw["na"], kw["ni"], kw["res"], kw["size"], kw["zres"], kw["zsize"], kw["dual"])
        rule = "the amplitude transfer vanishes off the spherical cap of the aperture"
    if not out.ok:
        rep.undecided(rule, label, out.why)
        return
    expect_zero(rep, rule, label, lab, out.value, g.value)
    rep.seen(lab)


def expect_zero(rep, rule, label, lab, v, scale, rim=True):
    """v vanishes compared with the magnitude of scale (rim: also where a compared quantity equals its limit)."""
    a, b = lab.av(v), lab.av(scale)
    if a.term.is_zero():
        rep.ok(rule, label)
        return
    n, path, smp = 0, lab.I.st.path, Samples()
    plain = [(m, "") for m in (smp.model(i, path) for i in range(4)) if m is not None]
    for m, extra in plain + smp.extra(path, (a.term,)):
        if m.tie and not rim:
            continue
        try:
            with np.errstate(all="ignore"):
                x, y = m.array(a.term, a.shape), m.array(b.term, b.shape)
        except Exception as e:
            continue
        n += 1
        big = np.abs(x) > 1e-7 * np.abs(y).max()
        if big.any():
            ix = np.unravel_index(np.argmax(big), big.shape)
            rep.bad(rule, label, f"value {x[ix]:.4g} at index {tuple(int(q) for q in ix)}" + (" when " + extra if extra else ""))
            return
    if n:
        rep.ok(rule, label, "ok~")
    else:
        rep.undecided(rule, label, "value not evaluable")


CHECKS = {"C01": c01, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C31": c31}
