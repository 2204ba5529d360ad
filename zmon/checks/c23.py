"""C23: doubtful PSF settings are reported by warnings, ordinary ones are not, and warnings never replace results."""
import warnings
import numpy as np
from .. import oracle as o
from .c11 import physical, polynomial
from .c12 import compile_now

LEVEL = "exploration"
RULE = ("A case is one PSF operation (setting of physical or calculation properties, calculation in one of its ways) with the warnings it emitted; non-trivial if a "
        "warning is due or the settings are near the limit at which it becomes due; distinct by the settings.")
ASSUMPTIONS = ["Kernels whose largest border value is within 1e-9 of 1/20 of the maximum and coefficients within 1e-9 of 10 wavelengths are not judged; the number and the text of "
               "the warnings are not judged, only whether there is any."]


def watched(fn):
    """Result of fn and the warnings emitted (each one, whatever was emitted before)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = fn()
    return res, [x for x in w if issubclass(x.category, UserWarning)]


def pick(rng, way):
    from zernpy import ZernPol
    if rng.random() < 0.15:
        orders = [(0, 0)]
    elif rng.random() < 0.4:
        orders = [tuple(x) for x in np.array(o.all_orders(6))[rng.choice(28, int(rng.integers(2, 5)), replace=False)].tolist()]
    else:
        orders = [polynomial(rng, way == "accelerated", 7)]
    pols = [ZernPol(m=m, n=n) for m, n in orders]
    return orders, pols[0] if len(pols) == 1 else pols


def physical_of(ctx, item):
    """Coefficients larger than 10 wavelengths."""
    from zernpy import ZernPSF
    label, count = item; rng = ctx.rng("physical", label)
    for k in range(count):
        orders, pols = pick(rng, "plain"); NA, wl, px = physical(rng); c = len(orders)
        kind = int(rng.integers(5)); top = [float(rng.uniform(0, 2)), 9.99, 10.01, float(rng.uniform(10.5, 300)), float(rng.uniform(8, 12))][kind]
        a = rng.uniform(-1, 1, c)*min(top, 9.5); at = int(rng.integers(c)); a[at] = top*rng.choice([-1, 1])
        form = [list, tuple, np.array][int(rng.integers(3))]; cs = [float(x*wl) for x in a]; value = form(cs) if c > 1 or rng.random() < 0.2 else cs[0]
        due = max(abs(x)/wl for x in cs)
        if abs(due - 10.0) < 1e-8:
            continue
        ctx.case((label, k, str(orders), str(cs)), nontrivial=due > 8, orders=orders, coefficients=cs, wavelength=wl)
        with ctx.guard("the properties are accepted"):
            psf = ZernPSF(pols); _, w = watched(lambda: psf.set_physical_props(NA, wl, value, px))
            ctx.event("warnings due", int(due > 10)); ctx.event("warnings not due", int(due <= 10))
            ctx.ok((len(w) > 0) == (due > 10.0), "set_physical_props warns exactly about coefficients of more than 10 wavelengths", largest=due, emitted=[str(x.message) for x in w])
            got = np.atleast_1d(psf.coefficients if c > 1 else psf.expansion_coeff)
            ctx.ok(np.array_equal(got, cs) and psf.NA == NA and psf.wavelength == wl and psf.pixel_size == px, "the properties are stored, with a warning or without", got=got, want=cs)
            # calculation properties
            est = psf.kernel_size; kind = int(rng.integers(6)); size = [est, est - 2, est + 2, 3, est + 1, max(3, est - 1)][kind]
            n_r, n_phi = [(20, 36), (320, 300), (500, 400), (501, 401), (501, 400), (500, 401), (600, 36), (20, 600), (1000, 1000)][int(rng.integers(9))]
            if size < 3:
                continue
            stored = size + 1 - size % 2
            _, w = watched(lambda: psf.set_calculation_props(size, n_r, n_phi)); due = stored < est or (n_r > 500 and n_phi > 400)
            ctx.event("warnings due", int(due)); ctx.event("warnings not due", int(not due))
            ctx.ok((len(w) > 0) == due, "set_calculation_props warns exactly about sizes less than the estimated one and needless numbers of points", size=size, estimated=est,
                   points=(n_r, n_phi), emitted=[str(x.message) for x in w])
            ctx.ok((psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points) == (stored, n_r, n_phi), "the properties are stored, with a warning or without",
                   got=(psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points))


def narrow(ctx):
    """Coefficients of integer types, the limits of these types included."""
    from zernpy import ZernPSF, ZernPol
    rng = ctx.rng("narrow"); pols = [ZernPol(m=0, n=2), ZernPol(m=-1, n=3), ZernPol(m=2, n=4)]
    for dtype in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32):
        low, high = int(np.iinfo(dtype).min), int(np.iinfo(dtype).max)
        for value in sorted({low, low + 1, high, 0, 5, 10, 11, -5 if low else 7, -10 if low else 9, -11 if low else 12}):
            for at in range(3):
                for wl in (1.0, 0.5, 2.0, float(high)):
                    cs = np.zeros(3, dtype); cs[at] = value; due = abs(value)/wl
                    ctx.case((dtype.__name__, value, at, wl), nontrivial=due > 8)
                    with ctx.guard("the properties are accepted"):
                        psf = ZernPSF(pols[:3]); form = [lambda: cs, lambda: list(cs), lambda: tuple(cs)][int(rng.integers(3))]()
                        _, w = watched(lambda: psf.set_physical_props(0.5, wl, form, 0.25*wl)); ctx.event("coefficients of integer types")
                        ctx.ok((len(w) > 0) == (due > 10.0), "set_physical_props warns exactly about coefficients of more than 10 wavelengths", largest=due,
                               emitted=[str(x.message) for x in w], dtype=dtype.__name__, value=value)


def settings(ctx):
    ctx.pmap(physical_of, [(i, ctx.scale(400, 6000)) for i in range(8)])


def border(K):
    return max(K[0].max(), K[-1].max(), K[:, 0].max(), K[:, -1].max())/K.max()


def calculations_of(ctx, item):
    """Kernels larger than their frame."""
    from zernpy import ZernPSF
    label, count = item; rng = ctx.rng("calculations", label)
    for k in range(count):
        way = "accelerated" if rng.random() < 0.7 else "plain"; orders, pols = pick(rng, way); NA, wl, px = physical(rng); NA = min(NA, 1.7)
        a = rng.uniform(-1, 1, len(orders))*float(rng.choice([0.05, 0.2, 0.6])); cs = [float(x*wl) for x in a]
        if rng.random() < 0.7:  # coarse pixels: the border becomes dark within few pixels
            px = 0.25*wl/NA*float(rng.choice([0.9, 1.0]))
            px = min(px, 0.5*0.5*wl/NA)
        sizes = [3, 5, 7, 9, 11, 13] if way == "accelerated" else [3, 5, 7, 9]; size = int(rng.choice(sizes)); norm = bool(rng.integers(2)); n_phi = int(rng.choice([36, 37, 40]))
        d = dict(orders=orders, coefficients=cs, NA=NA, wavelength=wl, px=px, size=size, way=way, normalized=norm)
        with ctx.guard("the kernel is calculated"):
            psf = ZernPSF(pols)
            watched(lambda: (psf.set_physical_props(NA, wl, cs if len(cs) > 1 else cs[0], px), psf.set_calculation_props(size, 20, n_phi)))
            kw = dict(normalized=norm, accelerated=way == "accelerated")
            K, w = watched(lambda: np.array(psf.calculate_psf_kernel(**kw))); b = border(K)
            ctx.case((label, k, str(d)), nontrivial=b > 0.02, border=b, **d)
            if abs(b - 0.05) > 1e-9:
                ctx.event("truncated kernels", int(b > 0.05)); ctx.event("complete kernels", int(b < 0.05)); ctx.event("borders near the limit", int(0.03 < b < 0.08))
                ctx.ok((len(w) > 0) == (b > 0.05), "the calculation warns exactly about kernels with more than 1/20 of the maximum on the border", border=b, emitted=[str(x.message) for x in w], **d)
            Q, w = watched(lambda: np.array(psf.calculate_psf_kernel(suppress_warnings=True, **kw)))
            ctx.ok(not w, "suppressed warnings are not emitted", emitted=[str(x.message) for x in w], **d)
            ctx.ok(Q.shape == K.shape and np.abs(Q - K).max() <= 1e-12*max(K.max(), 1e-3), "the kernel is the same with warnings suppressed", **d)
            if rng.random() < 0.3:  # the one flag doesn't stick to the object
                K2, w = watched(lambda: np.array(psf.calculate_psf_kernel(**kw)))
                ctx.ok(abs(b - 0.05) < 1e-9 or (len(w) > 0) == (b > 0.05), "warnings are suppressed for one calculation only", border=b, **d)
            if rng.random() < 0.3:
                turned = []
                with warnings.catch_warnings():
                    warnings.simplefilter("error")
                    try:
                        psf.calculate_psf_kernel(**kw)
                    except UserWarning as e:
                        turned.append(str(e))
                    ctx.ok(abs(b - 0.05) < 1e-9 or bool(turned) == (b > 0.05), "warnings can be turned into errors", border=b, **d)
                    L = np.array(psf.calculate_psf_kernel(suppress_warnings=True, **kw))
                ctx.ok(np.abs(L - K).max() <= 1e-12*max(K.max(), 1e-3), "a calculation ended by a warning doesn't influence the next ones", **d)


def calculations(ctx):
    compile_now()
    ctx.pmap(calculations_of, [(i, ctx.scale(55, 700)) for i in range(8)])


def unset(ctx):
    """Missing physical properties."""
    from zernpy import ZernPSF, ZernPol
    rng = ctx.rng("unset"); compile_now()
    for k in range(ctx.scale(24, 120)):
        acc = bool(rng.integers(2)); size = int(rng.choice([3, 5])); first = bool(rng.integers(2)); c = int(rng.integers(2, 5)) if k % 3 == 2 else 1
        if c > 1:  # several polynomials: default coefficients for all of them
            orders = [tuple(x) for x in np.array(o.all_orders(5))[rng.choice(21, c, replace=False)].tolist()]
        else:
            orders = [polynomial(rng, True, 6) if k % 6 else (0, 0)]
        ctx.case((k, str(orders), acc, size, first), orders=orders, accelerated=acc, size=size); ctx.event("sets of polynomials without properties", int(c > 1))
        with ctx.guard("the kernel is calculated"):
            psf = ZernPSF([ZernPol(m=m, n=n) for m, n in orders] if c > 1 else ZernPol(m=orders[0][0], n=orders[0][1]))
            _, w = watched(lambda: psf.set_calculation_props(size, 20, 36)); ctx.ok(len(w) > 0, "missing physical properties are reported when the kernel size is set")
            if first:
                S, w = watched(lambda: np.array(psf.calculate_psf_kernel(suppress_warnings=True, accelerated=acc))); ctx.ok(not w, "suppressed warnings are not emitted", emitted=[str(x.message) for x in w])
            K, w = watched(lambda: np.array(psf.calculate_psf_kernel(accelerated=acc)))
            ctx.ok(any("roperties" in str(x.message) for x in w) or (len(w) > 0), "missing physical properties are reported by the calculation")
            ctx.ok(K.shape == (size, size) and bool(np.all(np.isfinite(K))), "the kernel is calculated for the default properties", got=K.shape)
            if first:
                ctx.ok(np.array_equal(S, K), "the kernel is the same with warnings suppressed")
            # the report ends when the properties are set
            wl = 0.6; px = 0.25*wl/0.9; watched(lambda: psf.set_physical_props(0.9, wl, [0.01]*c if c > 1 else 0.01, px)); est = psf.kernel_size; watched(lambda: psf.set_calculation_props(est, 20, 36))
            K, w = watched(lambda: np.array(psf.calculate_psf_kernel(accelerated=True))); b = border(K)
            ctx.ok(abs(b - 0.05) < 1e-9 or (len(w) > 0) == (b > 0.05), "nothing is reported once the physical properties are set", border=b, emitted=[str(x.message) for x in w])


def outdated_of(ctx, item):
    """Settings refused by warnings turned into errors: what was wrong with them is no matter of the later settings and calculations."""
    from zernpy import ZernPSF
    label, count = item; rng = ctx.rng("outdated", label)
    for k in range(count):
        orders, pols = pick(rng, "accelerated"); c = len(orders); wl = float(rng.uniform(0.3, 1.2)); NA = float(rng.uniform(0.3, 1.4)); px = 0.25*wl/NA*0.98
        small = (lambda: [float(x) for x in rng.uniform(-0.05, 0.05, c)*wl]); form = (lambda cs: cs if c > 1 else cs[0]); kinds = [int(x) for x in rng.choice(4, int(rng.integers(1, 4)))]
        ctx.case((label, k, str(orders), str(kinds), NA, wl), orders=orders, wavelength=wl, kinds=kinds)
        with ctx.guard("the operations run"):
            psf = ZernPSF(pols)
            if rng.random() < 0.8:
                watched(lambda: psf.set_physical_props(NA, wl, form(small()), px))
            fired = 0
            for kind in kinds:
                with warnings.catch_warnings():
                    warnings.simplefilter("error")
                    try:
                        if kind == 0:
                            psf.set_physical_props(NA, wl, form([20.0*wl]*c), px)
                        elif kind == 1:
                            psf.set_calculation_props(max(psf.kernel_size, 3), 501, 401)
                        elif kind == 2:
                            psf.set_calculation_props(3, 20, 36)
                        else:
                            psf.set_calculation_props(3, 20, 36); psf.calculate_psf_kernel(accelerated=True)
                    except UserWarning:
                        fired += 1
            ctx.event("settings refused by warnings", fired)
            if not fired and kinds != [2]:
                ctx.event("settings without refusals")
            cs = small(); _, w = watched(lambda: psf.set_physical_props(NA, wl, form(cs), px)); ctx.ok(not w, "ordinary physical properties are not reported", emitted=[str(x.message) for x in w])
            est = psf.kernel_size; _, w = watched(lambda: psf.set_calculation_props(est, 20, 36)); ctx.ok(not w, "ordinary calculation properties are not reported", emitted=[str(x.message) for x in w])
            for again in range(2):
                K, w = watched(lambda: np.array(psf.calculate_psf_kernel(accelerated=True))); b = border(K)
                ctx.ok(est > 85 or abs(b - 0.05) < 1e-9 or (len(w) > 0) == (b > 0.05), "only the present kernel is reported by a calculation", border=b, repeated=again, emitted=[str(x.message) for x in w])
            fresh = ZernPSF(pols); watched(lambda: (fresh.set_physical_props(NA, wl, form(cs), px), fresh.set_calculation_props(est, 20, 36)))
            F, _ = watched(lambda: np.array(fresh.calculate_psf_kernel(accelerated=True)))
            ctx.ok(np.array_equal(F, K), "the kernel is the one of an object without such history", orders=orders)


def outdated(ctx):
    compile_now()
    ctx.pmap(outdated_of, [(i, ctx.scale(12, 150)) for i in range(8)])


SECTIONS = [("settings", settings), ("integer coefficients", narrow), ("calculations", calculations), ("unset", unset), ("outdated", outdated)]
