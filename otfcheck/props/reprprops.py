"""C26: what repr shows rebuilds the object."""
import ast
import re
from fractions import Fraction

from .. import poly as P
from ..check import boolv, compare, fl, num, psf_kw, make, size_sym, describe_v
from ..harness import Lab
from ..values import AV, Cond, ExtObj, FmtPart, StrV
from .aberprops import AS, MODEL_PARAMS
from .microprops import micro_cases, mk_micro, SIM_KW, TH
from ..check import micro_kw
from .psfmodels import SETTERS, tag

FIXED = {"SIM2DMicroscope": ("coherent", "dc"), "SIM3DMicroscope": ("coherent", "dc"), "LatticeSIMMicroscope": ("coherent", "dc", "orientations")}
MICRO_ATTRS = {
    "WidefieldMicroscope": (), "ApotomeMicroscope": (), "ConfocalMicroscope": ("wl_exc", "pinhole_size"),
    "SIM2DMicroscope": ("na_exc", "wl_exc", "wiener", "coherent", "dc", "dc_suppress", "orientations"),
}
MICRO_ATTRS["SIM3DMicroscope"] = MICRO_ATTRS["LatticeSIMMicroscope"] = MICRO_ATTRS["SIM2DMicroscope"]


class Unclear(Exception):
    pass


class Wrong(Exception):
    pass


def text(v):
    """(source text, placeholder -> part)"""
    parts = v.parts if isinstance(v, StrV) else (v,)
    out, holes = "", {}
    for p in parts:
        if isinstance(p, str):
            out += p
        elif isinstance(p, FmtPart):
            if p.spec == "join":
                raise Unclear("joined text of unknown parts")
            k = f"hole_{len(holes)}_"
            holes[k] = p
            out += k
        else:
            raise Unclear("text that is not followed")
    return out, holes


def lossless(spec):
    if spec is None:
        return True
    m = re.fullmatch(r"\.(\d+)g", spec if isinstance(spec, str) else "?")
    return bool(m) and int(m.group(1)) >= 17 or spec in ("d",)


def value(lab, e, holes):
    I = lab.I
    if isinstance(e, ast.Name):
        if e.id in holes:
            p = holes[e.id]
            v = I.res(p.val)
            if not lossless(p.spec):
                raise Wrong(f"a value is shown with the format {p.spec!r}, which loses digits")
            a = lab.av(v)
            if a is not None and a.shape and p.conv != "r":
                raise Wrong("an array is shown by str, which is not an expression")
            if isinstance(v, ExtObj):
                raise Unclear("value of an outside object")
            return v
        if e.id in ("nan", "inf", "pi"):
            raise Unclear(e.id)
        raise Wrong(f"{e.id} stands for a value without quotes")
    if isinstance(e, ast.Constant):
        if isinstance(e.value, str):
            for k, p in holes.items():
                if k in e.value:
                    v = I.res(p.val)
                    if e.value != k or not isinstance(v, (str, StrV)):
                        raise Wrong(f"{describe_v(v)} is shown within quotes") if isinstance(v, AV) else Unclear("text with parts")
                    return v
            return e.value
        if e.value is None:
            return None
        if isinstance(e.value, bool):
            return boolv(e.value)
        if isinstance(e.value, int):
            return num(e.value)
        if isinstance(e.value, float):
            return AV((), "f", None, P.as_poly(Fraction(repr(e.value))), pt="float")
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = value(lab, e.operand, holes)
        return I.binop("Sub", num(0), v)
    if isinstance(e, ast.Tuple):
        return tuple(value(lab, x, holes) for x in e.elts)
    if isinstance(e, ast.List):
        return I.new_list([value(lab, x, holes) for x in e.elts])
    if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) == "array" and len(e.args) == 1:
        r = lab.call(lab.I.getattr(lab.g("otf", "np"), "array"), value(lab, e.args[0], holes))
        if r.ok:
            return r.value
    raise Unclear(f"expression {ast.unparse(e)[:40]}")


def parse(lab, v):
    """class name and keyword arguments of the constructor call a representation shows"""
    if not isinstance(v, (str, StrV)):
        raise Unclear("no text")
    s, holes = text(v)
    try:
        e = ast.parse(s, mode="eval").body
    except SyntaxError as x:
        raise Wrong(f"not an expression: {s[:120]} ({x.msg})")
    if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Name):
        raise Wrong(f"not a constructor call: {s[:80]}")
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            raise Unclear("** in the text")
        kw[k.arg] = value(lab, k.value, holes)
    return e.func.id, [value(lab, a, holes) for a in e.args], kw


def shown(rep, lab, o, label, mod, cls, fixed=()):
    """rebuild the object its repr shows; None if that fails"""
    lab.call(lab.I.getattr(o, "__repr__"))  # showing an object must not change it
    r = lab.call(lab.I.getattr(o, "__repr__"))
    if not rep.need("repr completes", label, r):
        return None, {}
    try:
        name, pos, kw = parse(lab, lab.I.res(r.value))
    except Wrong as e:
        rep.bad("repr is an expression that shows every value", label, str(e))
        return None, {}
    except Unclear as e:
        rep.undecided("repr is an expression that shows every value", label, str(e))
        return None, {}
    rep.ok("repr is an expression that shows every value", label)
    if name != cls:
        rep.bad("repr names the class", label, f"{name} instead of {cls}")
        return None, {}
    rep.ok("repr names the class", label)
    extra = {k: kw.pop(k) for k in fixed if k in kw}
    n = lab.call(lab.g(mod, cls), *pos, **kw)
    if n.status == "raises":
        rep.bad("the constructor accepts what repr shows", label, n.why)
        return None, extra
    if not rep.need("the constructor accepts what repr shows", label, n):
        return None, extra
    rep.ok("the constructor accepts what repr shows", label)
    return n.value, extra


def equal(rep, rule, label, lab, a, b):
    a, b = lab.I.res(a), lab.I.res(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            rep.bad(rule, label, "number of values differs")
        for i, (x, y) in enumerate(zip(a, b)):
            equal(rep, rule, f"{label}[{i}]", lab, x, y)
    elif (a is None) != (b is None):
        rep.bad(rule, label, f"{describe_v(a)} shown for {describe_v(b)}")
    elif isinstance(a, str) and isinstance(b, str):
        rep.ok(rule, label) if a == b else rep.bad(rule, label, f"{a!r} shown for {b!r}")
    elif isinstance(a, str) != isinstance(b, str) and (isinstance(a, AV) or isinstance(b, AV)):
        rep.bad(rule, label, f"{describe_v(a)} shown for {describe_v(b)}")
    else:
        compare(rep, rule, label, lab, a, b, AS)


def params_agree(rep, lab, o, n, label, names):
    for at in names:
        a, b = lab.get(n, at), lab.get(o, at)
        if not b.ok:
            continue
        if not rep.need("the rebuilt object has every parameter", f"{label}: {at}", a):
            continue
        equal(rep, "the rebuilt object has every parameter", f"{label}: {at}", lab, a.value, b.value)


def psf_repr(rep, cls, kw, change, label):
    lab = Lab()
    o = make(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    o = o.value
    if change:
        lab.call(lab.I.getattr(o, "__repr__"))
    for at, v in change:
        v = v(lab) if callable(v) else v
        if not rep.need(f"{at} can be set", label, lab.set(o, at, v)):
            return
    n, _ = shown(rep, lab, o, label, "otf", cls)
    if n is not None:
        params_agree(rep, lab, o, n, label, [p for p in MODEL_PARAMS if p != "zrange" or cls == "HanserPSF"] + (["dual"] if cls == "SheppardPSF" else []))
    rep.seen(lab)


def micro_repr(rep, cls, kw, change, label):
    lab = Lab()
    kw = {k: v(lab) if callable(v) else v for k, v in kw.items()}
    o = mk_micro(lab, cls, kw)
    if not rep.need("constructor completes", label, o):
        return
    o = o.value
    if change:
        lab.call(lab.I.getattr(o, "__repr__"))
    for at, v in change:
        if not rep.need(f"{at} can be set", label, lab.set(o, at, v)):
            return
    n, extra = shown(rep, lab, o, label, "microscope", cls, FIXED.get(cls, ()))
    for k, v in extra.items():
        g = lab.get(o, k)
        if g.ok:
            equal(rep, "repr is an expression that shows every value", f"{label}: {k}", lab, v, g.value)
    if n is None:
        return
    params_agree(rep, lab, o, n, label, ("pixel_size", "oversample_factor") + MICRO_ATTRS[cls])
    a, b = lab.get(n, "model"), lab.get(o, "model")
    if rep.need("model can be read", label, a) and rep.need("model can be read", label, b):
        ca, cb = (lab.I.cell(lab.I.res(x.value)).cls for x in (a, b))
        if ca is not cb:
            rep.bad("the rebuilt microscope has the same emission model", label, "other kind of model")
        for at in MODEL_PARAMS + ("dual",):
            x, y = lab.get(a.value, at), lab.get(b.value, at)
            if x.ok and y.ok:
                equal(rep, "the rebuilt microscope has the same emission model", f"{label}: model.{at}", lab, x.value, y.value)
            elif y.ok and at != "dual":
                rep.need("the rebuilt microscope has the same emission model", f"{label}: model.{at}", x)
    rep.seen(lab)


def c26(rep, thorough):
    for cls in ("HanserPSF", "SheppardPSF"):
        dual = [dict(dual=boolv(b)) for b in (False, True)] if cls == "SheppardPSF" else [{}]
        for vc in ("none", "x", "y", "z", "total"):
            for cond in ("none", "sine", "herschel"):
                for dd in dual:
                    kw = psf_kw("odd" if vc != "x" else "even", "even" if cond != "sine" else "odd", vec_corr=vc, condition=cond, **dd)
                    rep.spawn(psf_repr, cls, kw, [], f"repr of {tag(cls, kw)}")
        base = psf_kw("odd", "even", vec_corr="total", condition="sine", **dual[-1])
        few = {k: v for k, v in base.items() if k not in ("zres", "zsize")}
        rep.spawn(psf_repr, cls, few, [], f"repr of {cls} with default zres and zsize")
        rep.spawn(psf_repr, cls, dict(base, wl=num(525), res=num(30), zres=num(20)), [], f"repr of {cls} with integer lengths")
        for at in SETTERS:
            rep.spawn(psf_repr, cls, base, [(at, SETTERS[at](base))], f"repr of {cls} after {at} is set")
        if cls == "HanserPSF":
            zr = [("zrange", lambda lab: lab.array("zr", (P.as_poly(7),)))]
            rep.spawn(psf_repr, cls, base, zr, "repr of HanserPSF after zrange is set")
            rep.spawn(psf_repr, cls, base, [("zrange", fl("z0"))], "repr of HanserPSF after a scalar zrange is set")
            rep.spawn(psf_repr, cls, base, zr + [("zres", fl("zres3", 1))], "repr of HanserPSF after zrange and zres are set")
            rep.spawn(psf_repr, cls, base, [("zres", fl("zres3", 1))] + zr, "repr of HanserPSF after zres and zrange are set")
        else:
            rep.spawn(psf_repr, cls, base, [("dual", boolv(False))], "repr of SheppardPSF after dual is set")
    for cls, kw in micro_cases(thorough):
        for model in ("hanser", "sheppard"):
            for os_ in (1, 3, 5) if thorough else (1, 3):
                for vc, cond in (("none", "sine"), ("total", "herschel")):
                    d = micro_kw("odd" if os_ == 1 else "even", model=model, oversample_factor=num(os_), **kw)
                    d.update(vec_corr=vc, condition=cond)
                    rep.spawn(micro_repr, cls, d, [], f"repr of {cls}({', '.join(sorted(kw))}) model {model} factor {os_} {vc} {cond}")
        d = micro_kw("even", oversample_factor=num(3), **kw)
        rep.spawn(micro_repr, cls, dict(d, zres=fl("zres", 1), zsize=size_sym("zsize", "odd")), [], f"repr of {cls}({', '.join(sorted(kw))}) with zres and zsize")
        rep.spawn(micro_repr, cls, {k: v for k, v in d.items() if k not in ("vec_corr", "condition")}, [], f"repr of {cls}({', '.join(sorted(kw))}) with default correction")
        rep.spawn(micro_repr, cls, dict(d, zrange=lambda lab: lab.array("zr", (P.as_poly(7),))), [], f"repr of {cls}({', '.join(sorted(kw))}) with zrange")
        rep.spawn(micro_repr, cls, dict(d, model="sheppard", dual=boolv(True)), [], f"repr of {cls}({', '.join(sorted(kw))}) with dual")
        ch = {"ConfocalMicroscope": [("wl_exc", fl("wle2", 1)), ("pinhole_size", fl("ph2"))]}.get(cls)
        if cls in ("SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope"):
            ch = [("na_exc", fl("nae2")), ("wl_exc", fl("wle2", 1)), ("dc_suppress", boolv(kw["dc_suppress"].term != P.ONE if "dc_suppress" in kw else True)), ("wiener", fl("w2")), ("wiener", None)]
            if cls != "LatticeSIMMicroscope":
                ch.append(("orientations", (fl("t1"), fl("t2"))))
        for c in ch or ():
            rep.spawn(micro_repr, cls, d, [c], f"repr of {cls}({', '.join(sorted(kw))}) after {c[0]} is set{' to None' if c[1] is None else ''}")


CHECKS = {"C26": c26}
