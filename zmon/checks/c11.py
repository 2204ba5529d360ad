"""C11: PSF kernels against the diffraction integral."""
import warnings
import numpy as np
from .. import oracle as o

LEVEL = "exploration"
RULE = ("A case is one PSF setting: polynomials, amplitudes, NA, wavelength, pixel size, kernel size, integration points, calculation variant. "
        "Non-trivial if at least one polynomial other than the piston has a non-zero amplitude; distinct by all settings.")
ASSUMPTIONS = ["The reference integral is Gauss-Legendre x periodic trapezoid, accepted if two resolutions agree to 1e-11.",
               "The allowed discretization error is 1.5 times the error of the documented rules (trapezoid, Simpson) computed independently.",
               "Settings are chosen with total phase amplitudes up to about 15 rad."]


def physical(rng):
    kind = int(rng.integers(0, 4))
    NA = [float(rng.uniform(0.05, 1.7)), float(rng.uniform(0.3, 1.49)), 1.7, 0.95][kind]
    wl = [float(rng.uniform(0.2, 2.0)), 0.55, float(rng.uniform(400, 700)), 1.0][int(rng.integers(0, 4))]
    px = 0.25*wl/NA*float(rng.choice([0.2, 0.5, 0.9, 0.98, float(rng.uniform(0.05, 1.0))]))
    return NA, wl, px


def points(rng, plain, size):
    n_r = int(rng.choice([20, 21, 33, 64, 101, 320] if plain else [20, 25, 60, 127, 200, 320, 410]))
    n_phi = int(rng.choice([36, 37, 38, 41, 51, 64, 99, 100] if plain else [36, 37, 39, 60, 61, 150, 181, 300, 301]))
    return n_r, n_phi


def polynomial(rng, accelerated, top=10):
    if rng.random() < 0.15:
        n = int(rng.integers(11, 20)); m = int(rng.choice([n, -n, n - 2, 2 - n]))
        if not accelerated and rng.random() < 0.5:
            m = int(rng.choice(np.arange(-n, n + 1, 2)))
        return m, n
    n = int(rng.integers(1, top + 1))
    return int(rng.choice(np.arange(-n, n + 1, 2))), n


def amplitudes(rng, terms):
    """Alphas (coefficient / wavelength) with a limited total phase."""
    a = rng.uniform(-1, 1, len(terms))*float(rng.choice([0.1, 0.4, 1.0, 2.0]))
    limit = 15.0/max(1e-9, sum(abs(x)*o.normf(n, m) for (m, n), x in zip(terms, a)))
    a = a*min(1.0, limit)
    if len(a) > 1 and rng.random() < 0.2:
        a[int(rng.integers(len(a)))] = 0.0
    return a


def build(terms, alphas, NA, wl, px, size, n_r, n_phi):
    from zernpy import ZernPol, ZernPSF
    pols = [ZernPol(m=m, n=n) for m, n in terms]
    psf = ZernPSF(pols[0] if len(pols) == 1 else pols)
    coeffs = [float(a*wl) for a in alphas]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        psf.set_physical_props(NA=NA, wavelength=wl, expansion_coeff=coeffs[0] if len(pols) == 1 else coeffs, pixel_physical_size=px)
        psf.set_calculation_props(kernel_size=size, n_integration_points_r=n_r, n_integration_points_phi=n_phi)
    return psf


def calculate(psf, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return psf.calculate_psf_kernel(**kw)


def judge(ctx, psf, K, ref, size, normalized, **d):
    want_size = size + 1 - size % 2
    if not ctx.ok(isinstance(K, np.ndarray) and K.shape == (want_size, want_size), "kernel is square of the requested odd size", got=np.shape(K), want=want_size, **d):
        return
    ctx.ok(psf.kernel is K or np.array_equal(psf.kernel, K), "the returned kernel is stored")
    ctx.ok(np.all(np.isfinite(K)) and K.min() >= 0.0, "kernel is finite and non-negative", low=K.min(), **d)
    if ref is None:
        ctx.event("reference not converged"); return
    want, bound = ref
    if normalized:
        ctx.ok(abs(K.max() - 1.0) <= 1e-15, "normalized kernel has the maximum 1", got=K.max(), **d)
        bound = 2.1*bound/want.max() + 1e-12; want = want/want.max()
    else:
        ctx.ok(K.max() <= 1.0 + bound, "kernel does not exceed 1", got=K.max(), **d)
    err = np.abs(K - want)
    at = np.unravel_index(np.argmax(err), err.shape)
    ctx.ok(err.max() <= bound, "each pixel equals the diffraction integral", position=at, got=K[at], want=want[at], error=err.max(), bound=bound, **d)
    ctx.event("pixels compared", K.size)
    if bound < 1e-4:
        ctx.event("pixels compared with a bound below 1e-4", K.size)


def plain_of(ctx, item):
    label, count = item
    rng = ctx.rng("plain", label)
    for k in range(count):
        terms = [polynomial(rng, False)]
        if rng.random() < 0.4:
            terms = list(dict.fromkeys(terms + [polynomial(rng, False, 6) for _ in range(int(rng.integers(1, 4)))]))
        if rng.random() < 0.1 and len(terms) > 1:
            terms[-1] = (0, 0)
        alphas = amplitudes(rng, terms); NA, wl, px = physical(rng); size = int(rng.choice([3, 3, 5, 4]))
        n_r, n_phi = points(rng, True, size); normalized = bool(rng.integers(2))
        one(ctx, terms, alphas, NA, wl, px, size, n_r, n_phi, normalized, False)


def one(ctx, terms, alphas, NA, wl, px, size, n_r, n_phi, normalized, accelerated):
    cfg = dict(terms=terms, alphas=[float(a) for a in alphas], NA=NA, wavelength=wl, pixel=px, size=size, n_r=n_r, n_phi=n_phi, normalized=normalized,
               accelerated=accelerated)
    ctx.case(tuple(map(str, cfg.values())), nontrivial=any(n > 0 and a != 0 for (m, n), a in zip(terms, alphas)), **cfg)
    with ctx.guard("kernel is calculated"):
        psf = build(terms, alphas, NA, wl, px, size, n_r, n_phi)
        K = calculate(psf, normalized=normalized, suppress_warnings=bool(size % 3), accelerated=accelerated)
        s = size + 1 - size % 2
        if terms == [(0, 0)] and not accelerated:
            ref = o.airy_kernel(NA, wl, px, s), 1e-9
        else:
            ref = o.psf_reference(list(zip(terms, alphas)), NA, wl, px, s, n_r, n_phi)
        judge(ctx, psf, K, ref, size, normalized, **{a: b for a, b in cfg.items() if a not in ("normalized", "size")})


def plain(ctx):
    ctx.pmap(plain_of, [(i, ctx.scale(14, 220)) for i in range(8)])


def long_of(ctx, item):
    """Sets of many polynomials, each with a weak amplitude (a few strong ones among them)."""
    label, count, acc = item; rng = ctx.rng("long sets", label, acc); table = [x for x in o.osa_table(9) if x != (0, 0)]
    for k in range(count):
        members = int(rng.choice([9, 11, 13, 17, 18, 21, 26, 33, 41, 50])); terms = [table[int(i)] for i in rng.choice(len(table), members, replace=False)]
        alphas = rng.uniform(0.003, 0.012, members)*rng.choice([-1, 1], members)
        if k % 2:
            alphas[int(rng.integers(members))] = 0.2
        NA, wl, px = physical(rng); ctx.event("sets of more than 8 polynomials")
        one(ctx, terms, alphas*min(1.0, 6.0/np.sum(np.abs(alphas)*[o.normf(n, m) for m, n in terms])), NA, wl, px, 3, 120 if acc else 60, 90 if acc else 60, bool(rng.integers(2)), acc)


def long_sets(ctx):
    ctx.pmap(long_of, [(i, ctx.scale(2, 20), acc) for i in range(8) for acc in (False, True)])


def accelerated_of(ctx, item):
    label, members, count = item
    rng = ctx.rng("accelerated", label, members)
    for k in range(count):
        terms = []
        while len(terms) < members:
            t = polynomial(rng, True)
            if t not in terms:
                terms.append(t)
        if members > 1 and rng.random() < 0.15:
            terms[int(rng.integers(members))] = (0, 0)
        alphas = amplitudes(rng, terms); NA, wl, px = physical(rng); size = int(rng.choice([3, 5, 7, 9, 6, 13]))
        n_r, n_phi = points(rng, False, size)
        if k < ctx.scale(2, 20):  # kernels of realistic sizes; fine steps, that the bound stays small
            size = int(rng.choice([21, 27, 31, 41, 51, 61])) if members < 3 else int(rng.choice([21, 27, 31]))
            n_r, n_phi = (400, 201) if size < 40 else (310, 150); px = min(px, 4.0*wl/NA/size); alphas = alphas*min(1.0, 6/15)
            ctx.event("large kernels")
        one(ctx, terms, alphas, NA, wl, px, size, n_r, n_phi, bool(rng.integers(2)), [True, None][int(rng.integers(2))])


def accelerated(ctx):
    items = [(0, 1, ctx.scale(30, 300)), (1, 1, ctx.scale(30, 300)), (2, 2, ctx.scale(25, 250)), (3, 3, ctx.scale(25, 250)), (4, 1, ctx.scale(30, 300)),
             (5, 2, ctx.scale(25, 250)), (6, 1, ctx.scale(30, 300)), (7, 5, ctx.scale(12, 200))]
    ctx.pmap(accelerated_of, items)


def airy(ctx):
    """Piston: the Airy pattern, for single polynomials and as a sequence of one, any amplitude."""
    rng = ctx.rng("airy")
    for k in range(ctx.scale(25, 200)):
        NA, wl, px = physical(rng); size = int(rng.choice([3, 5, 9, 15, 21, 10])); a = float(rng.uniform(-3, 3))
        one(ctx, [(0, 0)], [a], NA, wl, px, size, 20, 36, bool(k % 2), False)


def defaults(ctx):
    """A PSF without any properties set: the class defaults are used."""
    from zernpy import ZernPol, ZernPSF
    for m, n in [(0, 0), (-1, 3)]:
        ctx.case(("defaults", m, n))
        with ctx.guard("kernel is calculated"):
            psf = ZernPSF(ZernPol(m=m, n=n)); K = calculate(psf, suppress_warnings=True, normalized=False, accelerated=(n > 0))
            wl, NA, px = psf.wavelength, psf.NA, psf.pixel_size
            s = psf.kernel_size
            if n == 0:
                ref = o.airy_kernel(NA, wl, px, s), 1e-9
            else:
                ref = o.psf_reference([((m, n), psf.expansion_coeff/wl)], NA, wl, px, s, psf.n_int_r_points, psf.n_int_phi_points)
            judge(ctx, psf, K, ref, s, False, m=m, n=n)


def far_of(ctx, item):
    """Pixels far from the centre of kernels with coarse pixels: many periods of the diffraction integral."""
    k, size, members, accelerated = item
    rng = ctx.rng("far", *item); terms = []
    while len(terms) < members:
        t = polynomial(rng, True, 8)
        if t not in terms:
            terms.append(t)
    alphas = amplitudes(rng, terms)*0.4; NA = float(rng.uniform(0.3, 1.4)); wl = float(rng.uniform(0.4, 0.8)); px = float(0.25*wl/NA*rng.uniform(0.85, 0.999)); h = size//2
    n_r, n_phi = (160, 230) if accelerated else (110, 150)
    cfg = dict(terms=terms, alphas=alphas.tolist(), NA=NA, wavelength=wl, pixel=px, size=size, n_r=n_r, n_phi=n_phi, accelerated=accelerated)
    ctx.case(tuple(map(str, cfg.values())), **cfg)
    with ctx.guard("kernel is calculated"):
        psf = build(terms, alphas, NA, wl, px, size, n_r, n_phi); K = calculate(psf, normalized=False, suppress_warnings=True, accelerated=accelerated)
        if not ctx.ok(K.shape == (size, size), "kernel is square of the requested odd size", got=K.shape):
            return
        at = [(0, 0), (0, size - 1), (size - 1, 0), (size - 1, size - 1), (0, h), (h, 0), (h, size - 1), (size - 1, h), (h, h)] + [tuple(x) for x in rng.integers(0, size, (36, 2)).tolist()]
        ref = o.psf_pixels(list(zip(terms, alphas)), NA, wl, px, [(i - h, j - h) for i, j in at], n_r, n_phi)
        if ref is None:
            ctx.event("reference not converged"); return
        got = np.array([K[x] for x in at]); err = np.abs(got - ref[0]); w = int(np.argmax(err - ref[1]))
        ctx.ok(np.all(err <= ref[1]), "each pixel far from the centre equals the diffraction integral", position=at[w], got=got[w], want=ref[0][w], error=err[w], bound=ref[1][w])
        ctx.event("far pixels compared", len(at)); ctx.event("far pixels with a bound below 1e-6", int((ref[1] < 1e-6).sum()))


def far(ctx):
    from zmon.checks import c12
    c12.compile_now()
    items = [(k, s, m, True) for k, (s, m) in enumerate([(75, 1), (71, 1), (57, 2), (45, 3)])] + [(k, s, m, False) for k, (s, m) in enumerate([(41, 1), (31, 2), (39, 1)])]
    if ctx.thorough:
        items += [(k + 10, int(s), int(m), True) for k, (s, m) in enumerate(zip([91, 101, 85, 61, 67, 57, 51, 95, 81, 63, 73, 89], [1, 1, 1, 2, 2, 3, 3, 1, 1, 2, 1, 1]))]
        items += [(k + 10, s, 1 + k % 2, False) for k, s in enumerate([51, 35, 45, 33, 49, 37])]
    ctx.pmap(far_of, items)


def full_size(ctx):
    """The estimated kernel size and default integration points, as a user gets them."""
    rng = ctx.rng("full")
    from zernpy import ZernPol, ZernPSF
    for k in range(ctx.scale(2, 12)):
        terms = [polynomial(rng, True, 6)]; alphas = amplitudes(rng, terms)*0.5; NA, wl, px = 0.5, 0.6, 0.25*0.6/0.5*0.9
        psf = ZernPSF(ZernPol(m=terms[0][0], n=terms[0][1]))
        ctx.case(("full", str(terms), str(alphas)))
        with ctx.guard("kernel is calculated"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            psf.set_physical_props(NA, wl, float(alphas[0]*wl), px)
            psf.set_calculation_props(psf.kernel_size, 120, 90) if k % 2 == 0 else None
            K = calculate(psf); s = psf.kernel_size
            ctx.ok(s % 2 == 1 and s >= 3, "estimated kernel size is odd", got=s)
            ref = o.psf_reference(list(zip(terms, alphas)), NA, wl, px, s, psf.n_int_r_points, psf.n_int_phi_points)
            judge(ctx, psf, K, ref, s, True, terms=terms, alphas=alphas)


SECTIONS = [("plain", plain), ("accelerated", accelerated), ("long sets", long_sets), ("airy", airy), ("defaults", defaults), ("far pixels", far), ("full size", full_size)]
