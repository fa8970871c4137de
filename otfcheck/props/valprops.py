"""Validation: inputs outside the documented range are refused and change nothing, admissible ones are accepted (all modules)."""
import builtins

from ..check import *
from .aberprops import MODEL_PARAMS, snapshot, unchanged
from .psfmodels import OUTPUTS, CLASSES, check_mutations, dual_opts, protect, read_all, tag
from .zernprops import const_arr

VS = Samples()
TYPE, VALUE = ("TypeError",), ("ValueError",)
EITHER = ("TypeError", "ValueError")
CHECKED = ("AssertionError", "ValueError", "TypeError")


def neg(name, unit=0, integer=False):
    """A negative python number: minus a positive symbol."""
    if integer:
        return intv(-isym(name, 1))
    return AV((), "f", F(unit), -P.sym(name, pos=True), pt="float")


def floatv(t, unit=0):
    return AV((), "f", F(unit), P.as_poly(t), pt="float")


def wrong_numbers(lab):
    """Values that are no real numbers."""
    return {"a string": "1.0", "None": None, "a list": lab.I.new_list([num(1)]), "a tuple": (num(1), num(2)), "an array": lab.array("bad", (isym("nbad", 2),))}


def bad_psf_values(lab, cls, kw):
    """(parameter, description, value, allowed exceptions)"""
    out = []
    t = P.sym("t", pos=True)
    for at, u in (("wl", 1), ("na", 0), ("ni", 0)):
        for d, v in wrong_numbers(lab).items():
            out.append((at, d, v, TYPE))
        out.append((at, "a complex number", AV((), "c", F(u), P.sym("zc", real=False), pt="complex"), TYPE))
        out.append((at, "a negative number", neg("x", u), VALUE))
        out.append((at, "-1", num(-1), VALUE))
    for at in ("size", "zsize"):
        for d, v in wrong_numbers(lab).items():
            out.append((at, d, v, TYPE))
        out.append((at, "a float", fl("x"), TYPE))
        out.append((at, "64.0", num(64.0), TYPE))
        out.append((at, "a negative integer", neg("k", integer=True), VALUE))
        out.append((at, "-1", num(-1), VALUE))
    wl, na, ni = kw["wl"].term, kw["na"].term, kw["ni"].term
    out.append(("res", "zero", num(0), VALUE))
    out.append(("res", "a negative number", neg("x", 1), VALUE))
    out.append(("res", "the Abbe limit", floatv(wl / na * F(1, 2), 1), VALUE))
    out.append(("res", "more than the Abbe limit", floatv(wl / na * F(1, 2) * (1 + t), 1), VALUE))
    out.append(("zres", "zero", num(0), VALUE))
    out.append(("zres", "a negative number", neg("x", 1), VALUE))
    if cls == "SheppardPSF":
        out.append(("zres", "half the wavelength in the medium", floatv(wl / ni * F(1, 2), 1), VALUE))
        out.append(("zres", "more than half the wavelength in the medium", floatv(wl / ni * F(1, 2) * (1 + t), 1), VALUE))
        for d, v in (("1", num(1)), ("0", num(0)), ("None", None), ("a string", "True")):
            out.append(("dual", d, v, TYPE))
    for v in ("xy", "", "Total", "n", None):
        out.append(("vec_corr", repr(v), v, VALUE))
    for v in ("abbe", "", "Sine", "None", None):
        out.append(("condition", repr(v), v, VALUE))
    return out


def possible(o, st):
    conds = [(c, t) for c, t in st.path if (c, t) not in o.path0]
    return not conds or any(evaluable(m, conds) for m in VS.find(st.path))


def refused(rep, rule, label, lab, o, allowed, then=None):
    """The call must raise one of `allowed` (None: any exception).  then(): obligations about the state left behind."""
    if o.status == "undecided":
        rep.undecided(rule, label, o.why)
        return
    if o.status == "ok":
        conds = [(c, t) for c, t in lab.I.st.path if (c, t) not in o.path0]
        if not conds:
            rep.bad(rule, label, f"is accepted (gives {describe_v(lab.I.res(o.value))})")
        else:
            m = [m for m in VS.find(lab.I.st.path) if evaluable(m, conds)]
            if m:
                rep.bad(rule, label, "is accepted when " + ", ".join(f"{P.poly_str(P.as_poly(c))[:160]} is {t}" for c, t in conds[:4]))
            else:
                rep.undecided(rule, label, "is accepted under a condition the analysis cannot decide")
        return
    excs = [(e, s) for e, s in o.excs if possible(o, s)] or [x for x in o.excs if x[0] is o.exc]
    names = sorted({e.name for e, s in excs})
    wrong = [n for n in names if allowed is not None and n not in allowed]
    if not wrong:
        rep.ok(rule, label, "/".join(names))
    elif all(hasattr(builtins, n) for n in wrong):
        rep.bad(rule, label, f"raises {o.why} instead of {'/'.join(allowed)}")
    else:
        rep.undecided(rule, label, f"raises {'/'.join(wrong)}")
    if then is not None:
        s0 = lab.I.st
        for e, s in excs:
            lab.I.st = s.copy()
            then()
        lab.I.st = s0


def built(lab, cls, kw):
    return make(lab, cls, kw)


PSF_PARAMS = {c: tuple(p for p in MODEL_PARAMS if p != "zrange" or c == "HanserPSF") + (("dual",) if c == "SheppardPSF" else ()) for c in CLASSES}


def psf_assign(rep, cls, rd, pupil, names):
    """Rejected assignments leave the model as it was."""
    lab = Lab()
    lab.I.import_module("otfcheck_spec.optics")
    kw = psf_kw("odd", "even", vec_corr="none", condition="sine", **dual_opts(cls)[0])
    head = f"{cls}{' with a pupil' if pupil else ''}, outputs read before: {','.join(rd) or 'none'}"
    o = built(lab, cls, kw)
    if not rep.need("constructor completes", head, o):
        return
    o = o.value
    if pupil:
        n = kw["size"].term
        if not rep.need("apply_pupil completes", head, lab.meth(o, "apply_pupil", lab.array("pupil", (n, n), kind="c"))):
            return
    vals = read_all(rep, lab, o, head, rd)
    protect(lab, vals)
    before = snapshot(lab, o, PSF_PARAMS[cls] + OUTPUTS)
    st = lab.I.st
    for at, d, v, allowed in bad_psf_values(lab, cls, kw):
        if names is not None and at not in names:
            continue
        lab.I.st = st.copy()
        label = f"{head}: {at} = {d}"
        refused(rep, "invalid parameters are refused", label, lab, lab.set(o, at, v), allowed,
                lambda: unchanged(rep, "a refused assignment leaves the object as it was", label, lab, o, before))
    check_mutations(rep, "arrays returned earlier are not modified", lab, head)
    rep.seen(lab)


def psf_construct(rep, cls):
    lab = Lab()
    kw = psf_kw("odd", "even", vec_corr="none", condition="sine", **dual_opts(cls)[0])
    st = lab.I.st
    for at, d, v, allowed in bad_psf_values(lab, cls, kw):
        if v is None and at in ("zres", "zsize"):
            continue  # None asks for the default
        lab.I.st = st.copy()
        refused(rep, "invalid parameters are refused", f"{cls}({at}={d})", lab, built(lab, cls, dict(kw, **{at: v})), allowed)
    rep.seen(lab)


def reads_back(rep, label, lab, o, at, v):
    g = lab.get(o, at)
    if rep.need(f"parameter {at} can be read", label, g):
        x = lab.I.res(g.value)
        if isinstance(x, str) or isinstance(v, str) or v is None:
            (rep.ok if x == v else rep.bad)("accepted parameters read back", label, "" if x == v else f"{x!r} instead of {v!r}")
        else:
            compare(rep, "accepted parameters read back", label, lab, x, v, VS)


def taken(rep, rule, label, o):
    n = len(rep.obl)
    r = rep.need(rule, label, o)
    if len(rep.obl) == n:
        rep.ok(rule, label)
    return r


def psf_accept(rep, cls):
    """Every admissible kind of value is accepted, by the constructor and by assignment."""
    lab = Lab()
    kw = psf_kw("odd", "even", vec_corr="none", condition="sine", **dual_opts(cls)[0])
    wl, na, ni = (kw[k].term for k in ("wl", "na", "ni"))
    t = P.sym("t", pos=True)
    good = [("wl", "an integer", intv(isym("wli", 1))), ("ni", "an integer", num(2)), ("size", "odd", size_sym("size3", "odd")), ("zsize", "even", size_sym("zsize3", "even")),
            ("res", "just below the Abbe limit", floatv(wl / na * F(1, 2) * F(999, 1000), 1)), ("res", "between the Nyquist and the Abbe limit", floatv(wl / na * F(3, 8), 1)),
            ("res", "the Nyquist limit", floatv(wl / na * F(1, 4), 1)), ("res", "far below the Nyquist limit", floatv(wl / na * F(1, 10**6), 1)),
            ("zres", "far below the wavelength", floatv(wl * F(1, 10**6), 1)), ("zres", "just below half the wavelength in the medium", floatv(wl / ni * F(999, 2000), 1))]
    good += [("vec_corr", v, v) for v in VEC] + [("condition", v, v) for v in COND]
    if cls == "HanserPSF":
        good += [("zsize", "1", num(1)), ("zres", "several wavelengths", floatv(wl * 7, 1)), ("zres", "half the wavelength in the medium", floatv(wl / ni * F(1, 2), 1)),
                 ("zrange", "a number", num(0.5)), ("zrange", "a list", lab.I.new_list([fl("z1", 1), fl("z2", 1)])), ("zrange", "a tuple", (fl("z1", 1),)),
                 ("zrange", "an array", lab.array("zr", (isym("nz", 2),), unit=1))]
    else:
        good += [("dual", "True", boolv(True)), ("dual", "False", boolv(False))]
    o = built(lab, cls, kw)
    if not rep.need("constructor completes", cls, o):
        return
    st = lab.I.st
    for at, d, v in good:
        lab.I.st = st.copy()
        label = f"{cls}: {at} = {d}"
        if at != "wl" and taken(rep, "admissible parameters are accepted", label, lab.set(o.value, at, v)):
            if at != "zrange":
                reads_back(rep, label, lab, o.value, at, v)
        lab.I.st = st.copy()
        label = f"{cls}({at}={d})"
        k = dict(kw, **{at: v})
        if at == "wl":
            k["res"] = floatv(v.term / na * F(1, 5), 1)
            k["zres"] = floatv(v.term / ni * F(1, 5), 1)
        if at == "ni":
            k["zres"] = floatv(wl * F(1, 10), 1)
        c = built(lab, cls, k)
        if taken(rep, "admissible parameters are accepted", label, c) and at != "zrange":
            reads_back(rep, label, lab, c.value, at, v)
    # defaults: zres from res, zsize from size
    lab.I.st = st.copy()
    k = {x: v for x, v in kw.items() if x not in ("zres", "zsize")}
    if cls == "SheppardPSF":
        k["res"] = floatv(wl / ni * F(1, 5), 1)
    for extra in ({}, {"zres": None, "zsize": None}):
        c = built(lab, cls, dict(k, **extra))
        label = f"{cls} without zres and zsize" + (" (None)" if extra else "")
        if taken(rep, "admissible parameters are accepted", label, c):
            reads_back(rep, label + ": zres defaults to res", lab, c.value, "zres", k["res"])
            reads_back(rep, label + ": zsize defaults to size", lab, c.value, "zsize", kw["size"])
    rep.seen(lab)


# ------------------------------------------------------------------ microscopes
SIMS = ("SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope")


def micro_base(cls):
    d = {}
    if cls == "ConfocalMicroscope":
        d = dict(wl_exc=fl("wle", 1), pinhole_size=fl("ph"))
    elif cls in SIMS:
        d = dict(na_exc=fl("nae"), wl_exc=fl("wle", 1), wiener=fl("w"), dc_suppress=boolv(True))
        if cls != "LatticeSIMMicroscope":
            d["orientations"] = (num(0), fl("th1"))
    return micro_kw("even", **d)


def bad_micro_values(lab, cls, ctor):
    out = []
    wrong = wrong_numbers(lab)
    if ctor:
        for m in ("vectorial", "", "hanserpsf"):
            out.append(("model", repr(m), m, VALUE))
        for k in (2, 4, 10):
            out.append(("oversample_factor", str(k), num(k), CHECKED))
        out.append(("oversample_factor", "zero", num(0), CHECKED))
        out.append(("oversample_factor", "-1", num(-1), CHECKED))
        out.append(("oversample_factor", "3.0", num(3.0), TYPE))
        for d in ("a string", "None"):
            out.append(("oversample_factor", d, wrong[d], TYPE))
        out.append(("size", "a negative integer", neg("k", integer=True), VALUE))
        out.append(("size", "a float", fl("x"), TYPE))
        out.append(("na", "a negative number", neg("x"), VALUE))
        out.append(("wl", "a string", "0.5", EITHER))
        out.append(("pixel_size", "zero", num(0), VALUE))
        out.append(("pixel_size", "a negative number", neg("x", 1), VALUE))
        out.append(("vec_corr", "'xy'", "xy", VALUE))
    if cls == "ConfocalMicroscope":
        out.append(("pinhole_size", "a negative number", neg("x"), VALUE))
        out.append(("wl_exc", "a negative number", neg("x", 1), VALUE))
        for at in ("pinhole_size", "wl_exc"):
            for d, v in wrong.items():
                out.append((at, d, v, TYPE))
    if cls in SIMS:
        out.append(("na_exc", "a negative number", neg("x"), VALUE))
        out.append(("wl_exc", "a negative number", neg("x", 1), VALUE))
        out.append(("wiener", "a negative number", neg("x"), VALUE))
        out.append(("wiener", "-1", num(-1), VALUE))
        for at in ("na_exc", "wl_exc"):
            for d, v in wrong.items():
                if not (ctor and v is None):
                    out.append((at, d, v, TYPE))
        for at in ("dc_suppress",) if ctor else ("dc_suppress", "dc", "coherent"):
            for d, v in (("1", num(1)), ("0", num(0)), ("None", None), ("a string", "yes")):
                out.append((at, d, v, TYPE))
    return out


def micro_assign(rep, cls, rd):
    lab = Lab()
    kw = micro_base(cls)
    head = f"{cls}, outputs read before: {','.join(rd) or 'none'}"
    o = lab.call(lab.g("microscope", cls), **kw)
    if not rep.need("constructor completes", head, o):
        return
    o = o.value
    protect(lab, read_all(rep, lab, o, head, rd))
    names = {"ConfocalMicroscope": ("pinhole_size", "wl_exc")}.get(cls, ("na_exc", "wl_exc", "wiener", "dc_suppress", "dc", "coherent"))
    before = snapshot(lab, o, names + ("PSF", "OTF"))
    st = lab.I.st
    for at, d, v, allowed in bad_micro_values(lab, cls, False):
        lab.I.st = st.copy()
        label = f"{head}: {at} = {d}"
        refused(rep, "invalid parameters are refused", label, lab, lab.set(o, at, v), allowed,
                lambda: unchanged(rep, "a refused assignment leaves the object as it was", label, lab, o, before))
    check_mutations(rep, "arrays returned earlier are not modified", lab, head)
    rep.seen(lab)


def micro_construct(rep, cls):
    lab = Lab()
    kw = micro_base(cls)
    st = lab.I.st
    for at, d, v, allowed in bad_micro_values(lab, cls, True):
        lab.I.st = st.copy()
        refused(rep, "invalid parameters are refused", f"{cls}({at}={d})", lab, lab.call(lab.g("microscope", cls), **dict(kw, **{at: v})), allowed)
    good = [("model", m, m) for m in ("hanser", "Hanser", "sheppard", "SHEPPARD")] + [("oversample_factor", str(k), num(k)) for k in (1, 3, 7)]
    if cls == "ConfocalMicroscope":
        good += [("pinhole_size", "zero", num(0)), ("pinhole_size", "an integer", num(2))]
    if cls in SIMS:
        good += [("wiener", "None", None), ("wiener", "zero", num(0)), ("wiener", "an integer", num(1)), ("na_exc", "None", None), ("wl_exc", "None", None), ("dc_suppress", "False", boolv(False))]
    for at, d, v in good:
        lab.I.st = st.copy()
        label = f"{cls}({at}={d})"
        k = dict(kw, **{at: v})
        c = lab.call(lab.g("microscope", cls), **k)
        if taken(rep, "admissible parameters are accepted", label, c) and at != "model":
            w = v
            if v is None and at in ("na_exc", "wl_exc"):
                w = kw["na" if at == "na_exc" else "wl"]
            reads_back(rep, label, lab, c.value, at, w)
    rep.seen(lab)


# ------------------------------------------------------------------ functions
def functions(rep):
    rule = "invalid arguments are refused"
    lab = Lab()
    I = lab.I
    g = lab.g
    n1, n2 = isym("n1", 4), isym("n2", 4)
    lst = lambda *xs: I.new_list([num(x) for x in xs])
    r, th = lab.array("r", (n1, n2), nonneg=True), lab.array("th", (n1, n2))
    rneg = AV((n1, n2), "f", F(0), -1 - lab.av(r).term)
    r3 = lab.array("r3", (n1, n2, n1), nonneg=True)
    th3 = lab.array("th3", (n1, n2, n1))
    k = dict(psf_kw("odd", "even", vec_corr="none", condition="sine"))

    def case(label, f, allowed):
        s0 = I.st
        I.st = s0.copy()
        refused(rep, rule, label, lab, f(), allowed)
        I.st = s0

    nd, dn, ze = g("zernike", "noll2degrees"), g("zernike", "degrees2noll"), g("zernike", "zernike")
    for d, v in (("0", num(0)), ("-3", num(-3)), ("[1, 0, 2]", lst(1, 0, 2)), ("2.0", num(2.0)), ("[1.0, 2.0]", lst(1.0, 2.0))):
        case(f"noll2degrees({d})", lambda: lab.call(nd, v), VALUE)
    for d, a, b in (("2.0, 0", num(2.0), num(0)), ("2, 0.0", num(2), num(0.0)), ("2, 1", num(2), num(1)), ("3, 0", num(3), num(0)), ("1, 3", num(1), num(3)),
                    ("2, -4", num(2), num(-4)), ("[2, 2], [0, 1]", lst(2, 2), lst(0, 1)), ("[2, 1], [2, 3]", lst(2, 1), lst(2, 3))):
        case(f"degrees2noll({d})", lambda: lab.call(dn, a, b), VALUE)
    case("zernike(negative r)", lambda: lab.call(ze, I.new_arr(rneg), th, num(4)), VALUE)
    case("zernike(3-D coordinates)", lambda: lab.call(ze, r3, th3, num(4)), VALUE)
    case("zernike without index", lambda: lab.call(ze, r, th), EITHER)
    case("zernike with three indices", lambda: lab.call(ze, r, th, num(2), num(0), num(1)), EITHER)
    case("zernike(r, theta, 0)", lambda: lab.call(ze, r, th, num(0)), VALUE)
    case("zernike(r, theta, 2.0)", lambda: lab.call(ze, r, th, num(2.0)), VALUE)
    case("zernike(r, theta, 1, 3)", lambda: lab.call(ze, r, th, num(1), num(3)), VALUE)
    case("zernike(r, theta, 1, -3)", lambda: lab.call(ze, r, th, num(1), num(-3)), VALUE)
    case("zernike(r, theta, [2, 1], [0, 3])", lambda: lab.call(ze, r, th, lst(2, 1), lst(0, 3)), VALUE)
    # aberrations
    h, s = make(lab, "HanserPSF", k), make(lab, "SheppardPSF", k)
    if rep.need("constructor completes", "HanserPSF", h) and rep.need("constructor completes", "SheppardPSF", s):
        ap, an, am = g("otf", "apply_aberration"), g("otf", "apply_named_aberration"), g("otf", "apply_named_aberrations")
        c4, c5 = lab.array("c4", (P.as_poly(4),)), lab.array("c5", (P.as_poly(5),))
        case("apply_aberration of a SheppardPSF", lambda: lab.call(ap, s.value, c4, c4), CHECKED)
        case("apply_aberration of a SheppardPSF without coefficients", lambda: lab.call(ap, s.value, None, None), CHECKED)
        c1 = lab.array("c1", (P.as_poly(1),))
        for a, b in ((c4, c5), (c5, c4), (c1, c5), (c5, c1)):
            case(f"apply_aberration with {lab.av(a).shape[0]} magnitude and {lab.av(b).shape[0]} phase coefficients", lambda: lab.call(ap, h.value, a, b), CHECKED)
        for name in ("Defocus", "coma", ""):
            case(f"named_aberration_to_pcoefs({name!r})", lambda: lab.call(g("otf", "named_aberration_to_pcoefs"), name, num(1)), ("KeyError", "ValueError"))
            case(f"apply_named_aberration({name!r})", lambda: lab.call(an, h.value, name, num(1)), ("KeyError", "ValueError"))
            case(f"apply_named_aberrations(defocus and {name!r})", lambda: lab.call(am, h.value, lab.dict({"defocus": num(1), name: num(1)})), ("KeyError", "ValueError"))
        case("apply_pupil of a 3-D array", lambda: lab.meth(h.value, "apply_pupil", lab.array("p3", (n1, k["size"].term, k["size"].term), kind="c")), CHECKED)
    # phase retrieval
    p = dict(wl=fl("wl", 1), na=fl("na"), ni=fl("ni"), res=fl("res", 1), zres=fl("zres", 1))
    n, nz, m = isym("size", 8), isym("zsize", 8), isym("extra", 1)
    rp = g("phaseretrieval", "retrieve_phase")
    data = lab.array("data", (nz, n, n))
    for it in (0, -1):
        case(f"retrieve_phase(max_iters={it})", lambda: lab.call(rp, data, lab.dict(dict(p)), num(it)), CHECKED)
    case("retrieve_phase of wide data", lambda: lab.call(rp, lab.array("dataw", (nz, n, n + m)), lab.dict(dict(p)), num(1)), CHECKED)
    case("retrieve_phase of tall data", lambda: lab.call(rp, lab.array("datat", (nz, n + m, n)), lab.dict(dict(p)), num(1)), CHECKED)
    case("retrieve_phase of 4-D data", lambda: lab.call(rp, lab.array("data4", (nz, n, n, n)), lab.dict(dict(p)), num(1)), CHECKED)
    case("retrieve_phase of 2-D data", lambda: lab.call(rp, lab.array("data2", (n, n)), lab.dict(dict(p)), num(1)), None)
    case("retrieve_phase without wavelength", lambda: lab.call(rp, data, lab.dict({a: b for a, b in p.items() if a != "wl"}), num(1)), None)
    zd = g("phaseretrieval", "ZernikeDecomposition")
    z4 = lab.array("z4", (P.as_poly(4), n1, n1))
    a4, a3 = lab.array("a4", (P.as_poly(4),)), lab.array("a3", (P.as_poly(3),))
    case("ZernikeDecomposition with too few magnitude coefficients", lambda: lab.call(zd, a3, a4, z4), CHECKED)
    case("ZernikeDecomposition with too few phase coefficients", lambda: lab.call(zd, a4, a3, z4), CHECKED)
    case("ZernikeDecomposition with too many modes", lambda: lab.call(zd, a4, a4, lab.array("z5", (P.as_poly(5), n1, n1))), CHECKED)
    case("ZernikeDecomposition with too few modes", lambda: lab.call(zd, a4, a4, lab.array("z3", (P.as_poly(3), n1, n1))), CHECKED)
    # utilities
    sm, bn, fp = g("utils", "slice_maker"), g("utils", "bin_ndarray"), g("utils", "fft_pad")
    x, w = isz("x0", 0), neg("k", integer=True)
    case("slice_maker of a negative width", lambda: lab.call(sm, (x, x), w), VALUE)
    case("slice_maker of one negative width", lambda: lab.call(sm, (x, x), (num(3), num(-1))), VALUE)
    cplx = AV((), "c", F(0), P.sym("zc", real=False), pt="complex")
    case("slice_maker of a complex centre", lambda: lab.call(sm, I.new_arr(AV((P.as_poly(2),), "c", F(0), P.arr("xc", (-1,), real=False))), num(3)), EITHER)
    img = lab.array("img", (n1 * 2, n2 * 3))
    case("bin_ndarray without target", lambda: lab.call(bn, img), EITHER)
    for op in ("max", "median", ""):
        case(f"bin_ndarray(operation={op!r})", lambda: lab.call(bn, img, bin_size=(num(2), num(3)), operation=op), VALUE)
    case("bin_ndarray with a shape of other dimension", lambda: lab.call(bn, img, new_shape=(intv(n1), intv(n2), num(1))), VALUE)
    case("fft_pad to 2.5", lambda: lab.call(fp, img, num(2.5)), EITHER)
    rep.seen(lab)


def c10(rep, thorough):
    groups = [("wl",), ("na",), ("ni",), ("size",), ("zsize",), ("res", "zres"), ("vec_corr", "condition", "dual")]
    for cls in CLASSES:
        for names in groups:
            rep.spawn(psf_assign, cls, OUTPUTS, False, names)
            if cls == "HanserPSF":
                rep.spawn(psf_assign, cls, ("PSFi",), True, names)
            if thorough:
                rep.spawn(psf_assign, cls, (), False, names)
        rep.spawn(psf_construct, cls)
        rep.spawn(psf_accept, cls)
    for cls in ("WidefieldMicroscope", "ConfocalMicroscope", "ApotomeMicroscope") + SIMS:
        rep.spawn(micro_construct, cls)
        if cls == "ConfocalMicroscope" or cls in SIMS:
            for rd in ((), ("PSF", "OTF")) if thorough else (("PSF", "OTF"),):
                rep.spawn(micro_assign, cls, rd)
    rep.spawn(functions)


CHECKS = {"C10": c10}
