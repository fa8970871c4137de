"""Properties of pyotf.utils."""
from ..check import *


def fft_pairs(rep, thorough):
    """easy_fft / easy_ifft are the centred transform and its inverse on every axis subset."""
    for nd in (1, 2, 3) + ((4,) if thorough else ()):
        subsets = [None] + [c for r in range(1, nd + 1) for c in itertools.combinations(range(nd), r)]
        for axes in subsets:
            for par in itertools.product((0, 1), repeat=nd) if thorough or nd < 3 else ((0,) * nd, (1,) * nd, (0, 1, 0)[:nd]):
                rep.spawn(fft_pair, nd, axes, par)


def fft_pair(rep, nd, axes, par):
    lab = Lab(modules=["utils"])
    shape = [isym(f"n{i}", 8 + q, q) for i, q in enumerate(par)]
    x = lab.array("x", shape, kind="c")
    label = f"{nd}-D, axes={axes}, parities={par}"
    k = {} if axes is None else {"axes": tuple(num(a) for a in axes)}
    full = tuple(num(a) for a in (axes if axes is not None else range(nd)))
    for f, g, ref in (("easy_fft", "easy_ifft", "centred_fft"), ("easy_ifft", "easy_fft", "centred_ifft")):
        y = lab.call(lab.g("utils", f), x, **k)
        if not rep.need(f"{f} completes", label, y):
            continue
        r = refcall(lab, "optics", ref, x, full)
        if r.ok:
            compare(rep, f"{f} is the centred transform", label, lab, y.value, r.value)
        z = lab.call(lab.g("utils", g), y.value, **k)
        if rep.need(f"{g} completes", label, z):
            compare(rep, f"{g} inverts {f}", label, lab, z.value, x)
    rep.seen(lab)

# ------------------------------------------------------------------ padding, cropping
US = Samples(dict(x0f=[4.3, 9.5, 7.8, 0.2], x1f=[12.5, 0.6, 8.5, 3.7], w0f=[3.4, 4.5, 7.8, 2.2], w1f=[5.5, 8.6, 6.3, 2.7], x0=[3, 0, 12, 5], x1=[7, 1, 2, 9], w0=[4, 3, 7, 6], w1=[5, 2, 6, 3]))


def pad_case(rep, nd, spec_, mode):
    """fft_pad along every axis; spec_ gives (parity, parity of the change, direction) per axis."""
    lab = Lab(modules=["utils"])
    old, new = zip(*[lens_named(i, *s) for i, s in enumerate(spec_)])
    x = lab.array("x", old, kind="c" if mode == "constant" and nd == 1 else "f")
    label = f"fft_pad, {nd}-D, " + ", ".join(f"{'odd' if p else 'even'} size {h}{'' if h == 'same' else ' by ' + ('an even number', 'an odd number', 'one')[d]}" for p, d, h in spec_) + f", mode {mode}"
    shape = tuple(intv(m) for m in new)
    kw = {} if mode == "default" else {"mode": mode}
    o = lab.call(lab.g("utils", "fft_pad"), x, shape, **kw)
    if not rep.need("fft_pad completes", label, o):
        return
    from .psfmodels import expect_shape

    expect_shape(rep, "the result has the requested shape", label, lab, o.value, new)
    if mode == "constant":
        r = refcall(lab, "util", "placed", x, shape, boolv(True))
        rule, got = "the array is centred in the new one, zero elsewhere", o
    else:
        rule = "the part that holds data is the centred array"
        got = refcall(lab, "util", "core", o.value, tuple(intv(m) for m in old), shape)
        r = refcall(lab, "util", "shrunk", x, shape)
    if r.ok and got.ok:
        compare(rep, rule, label, lab, got.value, r.value, US)
    else:
        rep.undecided(rule, label, (r if not r.ok else got).why)
    rep.seen(lab)


def lens_named(i, par, delta, how):
    d = isym(f"d{i}", 2 if delta == 0 else 3, delta) if delta in (0, 1) else P.as_poly(1)
    m = isym(f"n{i}", 8 + par, par)
    return {"larger": (m, m + d), "smaller": (m + d, m), "same": (m, m)}[how]


def pad_forms(rep):
    """Ways to give the new shape: one number for all axes, None for an axis to be left alone, nothing for fast lengths."""
    lab = Lab(modules=["utils"])
    f = lab.g("utils", "fft_pad")
    n, m = isym("n0", 8, 0), isym("m0", 4, 0)
    m2 = isym("d0", 2, 0)
    x = lab.array("x", (n, n))
    s = intv(n + m)
    from .psfmodels import expect_shape

    for label, arg, shape in (("a number", s, (s, s)), ("a smaller number", intv(n - m2), (intv(n - m2),) * 2), ("a list", lab.I.new_list([s, s]), (s, s)), ("None for the first axis", (None, s), (intv(n), s)), ("None for the last axis", (s, None), (s, intv(n)))):
        o = lab.call(f, x, arg, mode="constant")
        label = "fft_pad to " + label
        if rep.need("fft_pad completes", label, o):
            expect_shape(rep, "the result has the requested shape", label, lab, o.value, tuple(v.term for v in shape))
            r = refcall(lab, "util", "placed", x, shape, boolv(True))
            if r.ok:
                compare(rep, "the array is centred in the new one, zero elsewhere", label, lab, o.value, r.value, US)
            else:
                rep.undecided("reference", label, r.why)
    rep.seen(lab)


def pad_fast(rep):
    """Without a shape every axis grows to the next fast transform length."""
    for a, b in ((7, 8), (11, 12), (16, 16), (17, 18), (13, 15)):
        lab = Lab(modules=["utils"])
        x = lab.array("x", (P.as_poly(a), P.as_poly(13)))
        o = lab.call(lab.g("utils", "fft_pad"), x, mode="constant")
        label = f"fft_pad of shape ({a}, 13) to fast lengths"
        if rep.need("fft_pad completes", label, o):
            r = refcall(lab, "util", "placed", x, (num(b), num(15)), boolv(True))
            if r.ok:
                compare(rep, "the array is centred in the new one, zero elsewhere", label, lab, o.value, r.value, US)
            else:
                rep.undecided("reference", label, r.why)
        rep.seen(lab)


def window_case(rep, name, x, w, seq):
    """slice_maker((x0, x1), w) or ((x0, x1), (w0, w1))."""
    lab = Lab(modules=["utils"])
    mk = {"int": lambda n, lb: isz(n, lb), "float": lambda n, lb: AV((), "f", F(0), P.sym(n + "f", pos=lb > 0), pt="float"),
          "even": lambda n, lb: isz(n + "e", max(lb, 0), 0), "odd": lambda n, lb: isz(n + "o", max(lb, 1), 1)}
    xs = tuple(AV((), "i", F(0), P.sym(f"x{i}", integer=True), pt="int") if x == "any int" else mk[x](f"x{i}", 0) for i in range(2))
    ws = tuple(mk[w](f"w{i}", 1) for i in range(2))
    label = f"slice_maker of {x} centres and {w} width{'s' if seq else ''}"
    o = lab.call(lab.g("utils", "slice_maker"), xs, ws if seq else ws[0])
    if not rep.need("slice_maker completes", label, o):
        return
    slices_equal(rep, lab, label, o.value, xs, ws if seq else (ws[0], ws[0]))
    rep.seen(lab)


def slices_equal(rep, lab, label, v, xs, ws):
    rule = "each slice has the width asked for, centred at w // 2, clipped at zero"
    v = lab.I.res(v)
    if isinstance(v, ListRef):
        v = lab.I.cell(v).items
    if not isinstance(v, tuple) or len(v) != len(xs):
        (rep.bad if isinstance(v, tuple) else rep.undecided)(rule, label, describe_v(v))
        return
    for i, (s, x, w) in enumerate(zip(v, xs, ws)):
        r = refcall(lab, "util", "window", x, w)
        if not r.ok:
            rep.undecided(rule, label, r.why)
            continue
        for part in range(2):
            got = lab.run(lambda: lab.I.getattr(s, ("start", "stop")[part]))
            ref = lab.run(lambda: lab.I.getitem(r.value, num(part)))
            if got.ok and ref.ok:
                compare(rep, rule, f"{label}: axis {i} {('start', 'stop')[part]}", lab, got.value, ref.value, US)
            else:
                rep.undecided(rule, label, (ref if got.ok else got).why)


def c27(rep, thorough):
    opts = list(itertools.product((0, 1), (0, 1, 2), ("larger", "smaller"))) + [(0, 0, "same"), (1, 0, "same")]
    for s in opts:
        for mode in ("constant", "default", "edge", "wrap") if thorough else ("constant", "default", "edge"):
            rep.spawn(pad_case, 1, (s,), mode)
    for s in itertools.product(opts, repeat=2):
        if thorough or s[0][2] != s[1][2] or s[0] == s[1]:
            rep.spawn(pad_case, 2, s, "constant")
    for s in (((0, 0, "same"), (1, 1, "smaller"), (0, 1, "larger")), ((1, 0, "same"), (0, 0, "larger"), (0, 0, "larger"))):
        rep.spawn(pad_case, 3, s, "constant")
    rep.spawn(pad_forms)
    rep.spawn(pad_fast)
    for x in ("int", "float", "any int"):
        for w in ("int", "odd", "even", "float"):
            for seq in (False, True):
                rep.spawn(window_case, "slice_maker", x, w, seq)
    from .prprops import pr_sizes

    pr_sizes(rep, thorough)


# ------------------------------------------------------------------ the other utilities
def shaped(lab, name, nd, kind="f", lb=6, **kw):
    return lab.array(name, tuple(isym(f"n{i}", lb + i) for i in range(nd)), kind=kind, **kw)


def simple(rep):
    lab = Lab(modules=["utils"])
    g = lab.g
    for nd in (0, 1, 2):
        y, x = (shaped(lab, n, nd) for n in "yx") if nd else (fl("y", pos=False), fl("x", pos=False))
        o, r = lab.call(g("utils", "cart2pol"), y, x), refcall(lab, "util", "polar", y, x)
        label = f"cart2pol, {nd}-D"
        if rep.need("cart2pol completes", label, o):
            for i, t in enumerate(("radius", "angle")):
                a, b = lab.run(lambda: lab.I.getitem(o.value, num(i))), lab.run(lambda: lab.I.getitem(r.value, num(i)))
                if a.ok and b.ok:
                    compare(rep, "polar coordinates: radius, then angle from the x axis", f"{label}: {t}", lab, a.value, b.value, US)
                else:
                    rep.undecided("polar coordinates: radius, then angle from the x axis", label, a.why or b.why)
        o, r = lab.call(g("utils", "psqrt"), x), refcall(lab, "util", "root", x)
        if rep.need("psqrt completes", f"psqrt, {nd}-D", o):
            compare(rep, "square root, zero for negative values", f"psqrt, {nd}-D", lab, o.value, r.value, US)
    rep.seen(lab)


def center(rep, nd, kind):
    lab = Lab(modules=["utils"])
    x = shaped(lab, "data", nd, kind)
    lab.own(x, "the caller's array")
    label = f"center_data, {nd}-D, kind {kind}"
    o, r = lab.call(lab.g("utils", "center_data"), x), refcall(lab, "util", "centred", x)
    if rep.need("center_data completes", label, o):
        if r.ok:
            compare(rep, "the maximum is rolled to n // 2 of every axis", label, lab, o.value, r.value, US)
        else:
            rep.undecided("reference", label, r.why)
    from .psfmodels import check_mutations

    check_mutations(rep, "the input is not modified", lab, label)
    rep.seen(lab)


def bg(rep, nd):
    lab = Lab(modules=["utils"])
    x = shaped(lab, "data", nd, "i", nonneg=True)
    lab.own(x, "the caller's array")
    for label, kw, m in (("default", {}, num(1.5)), ("given", {"multiplier": fl("mult", pos=False)}, fl("mult", pos=False)), ("zero", {"multiplier": num(0)}, num(0))):
        label = f"remove_bg, {nd}-D, multiplier {label}"
        o, r = lab.call(lab.g("utils", "remove_bg"), x, **kw), refcall(lab, "util", "background", x, m)
        if rep.need("remove_bg completes", label, o):
            if r.ok:
                compare(rep, "the mode times the multiplier is subtracted", label, lab, o.value, r.value, US)
            else:
                rep.undecided("reference", label, r.why)
    from .psfmodels import check_mutations

    check_mutations(rep, "the input is not modified", lab, f"remove_bg, {nd}-D")
    rep.seen(lab)


def bins(rep, nd, bs, rest, form, op, kind):
    """Blocks of concrete size, symbolic number of blocks, rest pixels left over."""
    lab = Lab(modules=["utils"])
    cnt = tuple(isym(f"n{i}", 4 + i) for i in range(nd))
    x = lab.array("x", tuple(c * b + r for c, b, r in zip(cnt, bs, rest)), kind=kind)
    lab.own(x, "the caller's array")
    nums = tuple(num(b) for b in bs)
    label = f"bin_ndarray, {nd}-D, blocks {bs}, {rest} left over, {form}, {op or 'default'}, kind {kind}"
    kw = {"bin_size": nums} if form == "bin_size" else {"bin_size": nums[0]} if form == "scalar bin_size" else {"new_shape": tuple(intv(c) for c in cnt)}
    if form == "bin_size list":
        kw = {"bin_size": lab.I.new_list(list(nums))}
    if op:
        kw["operation"] = op
    o = lab.call(lab.g("utils", "bin_ndarray"), x, **kw)
    r = refcall(lab, "util", "binned", x, nums, tuple(intv(c) for c in cnt), boolv((op or "").lower() == "mean"))
    if rep.need("bin_ndarray completes", label, o):
        if r.ok:
            compare(rep, "bins are sums or means of whole blocks from the start of each axis", label, lab, o.value, r.value, US)
        else:
            rep.undecided("reference", label, r.why)
    from .psfmodels import check_mutations

    check_mutations(rep, "the input is not modified", lab, label)
    rep.seen(lab)


def profile(rep, kind, center_, step, par):
    lab = Lab(modules=["utils"])
    shape = (isym("n0", 8 + par[0], par[0]), isym("n1", 10 + par[1], par[1]))
    x = lab.array("x", shape, kind=kind)
    lab.own(x, "the caller's array")
    f = lambda t: floor2(lab, t)
    kw, c = {}, tuple(f(s) for s in shape)
    if center_:
        c = (isz("cy", 4), isz("cx", 4)) if center_ != "float" else (fl("cyf"), fl("cxf"))
        kw["center"] = c if center_ != "list" else lab.I.new_list(list(c))
    s = num(1)
    if step:
        s = kw["binsize"] = num(2) if step == "two" else fl("step")
    label = f"radial_profile, kind {kind}, centre {center_ or 'default'}, binsize {step or 'default'}, parities {par}"
    o = lab.call(lab.g("utils", "radial_profile"), x, **kw)
    r = refcall(lab, "util", "profile", x, *c, s, boolv(kind == "c"))
    if rep.need("radial_profile completes", label, o):
        if not r.ok:
            rep.undecided("reference", label, r.why)
            return
        for i, t in enumerate(("mean", "standard deviation")):
            a, b = lab.run(lambda: lab.I.getitem(o.value, num(i))), lab.run(lambda: lab.I.getitem(r.value, num(i)))
            if a.ok and b.ok:
                compare(rep, "mean and standard deviation over rings of rounded radius", f"{label}: {t}", lab, a.value, b.value, US)
            else:
                rep.undecided("mean and standard deviation over rings of rounded radius", label, a.why or b.why)
    from .psfmodels import check_mutations

    check_mutations(rep, "the input is not modified", lab, label)
    rep.seen(lab)


def floor2(lab, t):
    return lab.run(lambda: lab.I.binop("FloorDiv", intv(t), num(2))).value


def c33(rep, thorough):
    rep.spawn(simple)
    for nd in (1, 2, 3):
        for kind in ("f", "i"):
            rep.spawn(center, nd, kind)
        rep.spawn(bg, nd)
    for nd, bs in ((1, (2,)), (1, (3,)), (2, (2, 3)), (2, (3, 3)), (3, (1, 3, 3)), (3, (2, 1, 5))):
        for rest in {tuple(0 for b in bs), tuple(b - 1 for b in bs), tuple(min(1, b - 1) for b in bs)}:
            for op in (None, "mean", "sum", "MEAN"):
                for form in ("bin_size", "bin_size list", "scalar bin_size", "new_shape"):
                    if form == "scalar bin_size" and len(set(bs)) > 1 or form == "new_shape" and any(rest):
                        continue
                    if not thorough and (op in ("sum", "MEAN") or form == "bin_size list") and nd != 2:
                        continue
                    for kind in ("f", "c") if op is None else ("f",):
                        rep.spawn(bins, nd, bs, rest, form, op, kind)
    for kind in ("f", "c", "i"):
        for center_ in (None, "tuple", "list", "float"):
            for step in (None, "two", "any"):
                for par in ((0, 0), (1, 1), (0, 1)):
                    if thorough or kind == "f" and (not center_ or not step) or (center_, step) in ((None, None), ("tuple", "two")):
                        rep.spawn(profile, kind, center_, step, par)


# ------------------------------------------------------------------ data preparation
def prep(rep, how, par, mult):
    """how: relation of the requested size to the data's lateral sizes."""
    lab = Lab(modules=["utils"])
    q = [v % 2 for v in (par, par >> 1, par >> 2)]
    nz, n = isym("nz", 4), isym("n0", 8 + q[0], q[0])
    d, e = isym("d0", 2 - q[1], q[1]), isym("d1", 2 - q[2], q[2])
    ny, nx, size, same = {
        "square, default": (n, n, None, True), "square, same": (n, n, n, True), "wide, default": (n, n + d, None, False), "tall, default": (n + d, n, None, False),
        "larger": (n, n, n + d, False), "larger than both": (n + d, n, n + d + e, False), "smaller": (n + d, n + d, n, False), "smaller than both": (n + d, n + d + e, n, False),
        "between, wide": (n, n + d + e, n + d, False), "between, tall": (n + d + e, n, n + d, False), "equal to the height": (n, n + d, n, False), "equal to the width": (n + d, n, n, False),
    }[how]
    x = lab.array("data", (nz, ny, nx), kind="i", nonneg=True)
    lab.own(x, "the caller's array")
    kw = {} if size is None else {"xysize": intv(size)}
    m = num(1.5)
    if mult:
        m = kw["multiplier"] = fl("mult")
    label = f"prep_data_for_PR, size {how}, smallest size and differences {', '.join('odd' if v else 'even' for v in q)}, multiplier {'any' if mult else 'default'}"
    o = lab.call(lab.g("utils", "prep_data_for_PR"), x, **kw)
    want = size if size is not None else (n + d if not same else n)
    if not rep.need("prep_data_for_PR completes", label, o):
        return
    from .psfmodels import check_mutations, expect_nonneg, expect_shape

    expect_shape(rep, "the result is square with the requested size", label, lab, o.value, (nz, want, want))
    r = refcall(lab, "util", "prepared", x, intv(want), m, boolv(same))
    if r.ok:
        compare(rep, "background removed, centred in the new size, clipped at zero", label, lab, o.value, r.value, US)
    else:
        rep.undecided("reference", label, r.why)
    check_mutations(rep, "the input is not modified", lab, label)
    rep.seen(lab)


HOWS = ("square, default", "square, same", "wide, default", "tall, default", "larger", "larger than both", "smaller", "smaller than both", "between, wide", "between, tall",
        "equal to the height", "equal to the width")


def c28(rep, thorough):
    for how in HOWS:
        for par in range(2 if "square" in how and "default" in how or "same" in how else 8 if "both" in how or "between" in how else 4):
            for mult in (False, True):
                if thorough or not mult or par < 2:
                    rep.spawn(prep, how, par, mult)


CHECKS = {"C27": c27, "C28": c28, "C33": c33}
