"""C22: kernels depend on the physical setting only, not on the unit of length, the size of the kernel or the pixel grid."""
import warnings
import numpy as np
from .. import oracle as o
from .c11 import physical, amplitudes, polynomial, calculate
from .c12 import new, compile_now

LEVEL = "exploration"
RULE = ("A case is one setting (polynomials, amplitudes, optics, integration points, way of calculation) together with an equivalent one: other unit of length, "
        "aperture exchanged for pixel size, other kernel size, finer pixels; non-trivial if a polynomial other than the piston has a non-zero amplitude; distinct by the settings.")
ASSUMPTIONS = ["The pairs evaluate the same discretized integral with the same arguments up to rounding: a relative difference of 1e-9 of the maximum is allowed "
               "(for units which are powers of two no rounding occurs in the estimate of the kernel size; other units are not compared there)."]
TOL = 1e-9
WAYS = ["plain", "accelerated", "parallel"]


def values(psf, way, norm):
    if way == "parallel":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return np.array(psf.get_kernel_parallel(normalize_values=norm))
    return np.array(calculate(psf, normalized=norm, accelerated=way == "accelerated"))


def same(ctx, A, B, rule, **d):
    if not ctx.ok(A.shape == B.shape, "kernels have the same size", got=A.shape, want=B.shape, **d):
        return
    top = max(np.abs(A).max(), 1e-3); err = np.abs(A - B)
    ctx.ok(np.all(np.isfinite(A)) and np.all(np.isfinite(B)) and err.max() <= TOL*top, rule, error=float(err.max()), at=np.unravel_index(err.argmax(), err.shape), **d)


def case_of(rng, way, big):
    from zernpy import ZernPol
    many = way != "parallel" and rng.random() < 0.4
    if rng.random() < 0.12:
        orders = [(0, 0)]
    elif many:
        orders = [tuple(x) for x in np.array(o.all_orders(7))[rng.choice(36, int(rng.integers(2, 4)), replace=False)].tolist()]
    else:
        orders = [polynomial(rng, way == "accelerated", 8)]
    a = [float(x) for x in amplitudes(rng, orders)]; NA, wl, px = physical(rng)
    # aperture and pixel size far enough from their limits, to be exchanged for each other
    size = int(rng.choice([3, 5] if way != "accelerated" and not big else [3, 5, 7, 9])); n_r = int(rng.choice([20, 33])); n_phi = int(rng.choice([36, 37, 40]))
    pols = [ZernPol(m=m, n=n) for m, n in orders]
    if len(pols) == 1:
        pols = pols[0]
    return orders, pols, a, NA, wl, px, size, n_r, n_phi


def make(pols, a, NA, wl, px, size, n_r, n_phi):
    cs = [x*wl for x in a]
    return new(pols, cs if isinstance(pols, list) else cs[0], NA, wl, px, size, n_r, n_phi)


def estimate(pols, a, NA, wl, px):
    from zernpy import ZernPSF
    psf = ZernPSF(pols); cs = [x*wl for x in a]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        psf.set_physical_props(NA, wl, cs if isinstance(pols, list) else cs[0], px)
    return psf.kernel_size


def laws_of(ctx, item):
    label, count = item; rng = ctx.rng("laws", label)
    for k in range(count):
        way = WAYS[int(rng.choice(3, p=[0.35, 0.5, 0.15]))]; orders, pols, a, NA, wl, px, size, n_r, n_phi = case_of(rng, way, ctx.thorough)
        norm = bool(rng.integers(2)); d = dict(orders=orders, alpha=a, NA=NA, wavelength=wl, px=px, size=size, n_r=n_r, n_phi=n_phi, way=way, normalized=norm)
        ctx.case((label, k, str(d)), nontrivial=orders != [(0, 0)], **d)
        with ctx.guard("the kernel is calculated"):
            K = values(make(pols, a, NA, wl, px, size, n_r, n_phi), way, norm)
            ctx.event(way)
            # another unit of length
            f = float(rng.choice([2.0**-20, 2.0**-10, 2.0**10, 1e3, 1e-3, 1e-6, 25.4, float(10**rng.uniform(-8, 8))]))
            if px*f <= 0.25*(wl*f)/NA:
                same(ctx, values(make(pols, a, NA, wl*f, px*f, size, n_r, n_phi), way, norm), K, "the unit of length doesn't change the kernel", factor=f, **d)
            # aperture exchanged for the pixel size: the same ratio NA*px/wavelength
            s = float(rng.choice([0.5, 0.25, 0.8, 1.25, 2.0, 4.0]))
            if 0.0 < NA*s <= 1.7 and px/s <= 0.25*wl/(NA*s):
                same(ctx, values(make(pols, a, NA*s, wl, px/s, size, n_r, n_phi), way, norm), K, "the kernel depends on the product of NA and pixel size", factor=s, **d)
            # size of the kernel: the small kernel is the middle of the large one
            grow = int(rng.integers(1, 4)); U = K if not norm else values(make(pols, a, NA, wl, px, size, n_r, n_phi), way, False)
            if way != "parallel" or size < 5:
                B = values(make(pols, a, NA, wl, px, size + 2*grow, n_r, n_phi), way, False)
                if ctx.ok(B.shape == (size + 2*grow,)*2, "kernels have the same size", got=B.shape, **d):
                    same(ctx, B[grow:-grow, grow:-grow], U, "a larger kernel holds the smaller one in its middle", larger=size + 2*grow, **d)
            # pixels: the finer grid holds the coarser one
            q = int(rng.choice([2, 2, 3])); fine = q*(size//2)*2 + 1
            if way != "parallel" or fine <= 7:
                B = values(make(pols, a, NA, wl, px/q, fine, n_r, n_phi), way, False)
                if ctx.ok(B.shape == (fine, fine), "kernels have the same size", got=B.shape, **d):
                    same(ctx, B[::q, ::q], U, "kernels with finer pixels hold the values of the coarser one", finer=q, **d)
            if norm:
                ctx.ok(abs(K.max() - 1.0) <= 1e-12 and np.all(np.abs(U - K*U.max()) <= TOL), "normalization divides by the maximum", **d)


def laws(ctx):
    compile_now()
    ctx.pmap(laws_of, [(i, ctx.scale(14, 190)) for i in range(8)])


def large_of(ctx, item):
    """Large kernels: the outer pixels against coarser pixels (the same places reached with few pixels), the inner ones against a small kernel."""
    from zernpy import ZernPol
    label, way, half, count = item; rng = ctx.rng("large", label)
    orders = [polynomial(rng, way == "accelerated", 6)] if count == 1 else [tuple(x) for x in np.array(o.all_orders(6))[rng.choice(28, count, replace=False)].tolist()]
    a = [float(x) for x in amplitudes(rng, orders)]; NA, wl, _ = physical(rng); pols = [ZernPol(m=m, n=n) for m, n in orders]; pols = pols[0] if count == 1 else pols
    q = int(rng.choice([5, 6, 8])); coarse = half//q; half = coarse*q; size = 2*half + 1; px = 0.24*wl/NA/q*float(rng.uniform(0.7, 1.0)); n_r, n_phi = 20, 36
    d = dict(orders=orders, alpha=a, NA=NA, wavelength=wl, px=px, size=size, n_r=n_r, n_phi=n_phi, way=way)
    ctx.case(("large", label), nontrivial=orders != [(0, 0)], **d)
    with ctx.guard("the kernel is calculated"):
        K = values(make(pols, a, NA, wl, px, size, n_r, n_phi), way, False); ctx.event("pixels of large kernels", size*size)
        if ctx.ok(K.shape == (size, size), "kernels have the same size", got=K.shape, **d):
            C = values(make(pols, a, NA, wl, px*q, 2*coarse + 1, n_r, n_phi), way, False)
            same(ctx, K[::q, ::q], C, "kernels with finer pixels hold the values of the coarser one", finer=q, **d)
            S = values(make(pols, a, NA, wl, px, 5, n_r, n_phi), way, False)
            same(ctx, K[half - 2:half + 3, half - 2:half + 3], S, "a larger kernel holds the smaller one in its middle", larger=size, **d)
            N = values(make(pols, a, NA, wl, px, size, n_r, n_phi), way, True)
            ctx.ok(N.shape == K.shape and abs(N.max() - 1.0) <= 1e-12 and np.all(np.abs(K - N*K.max()) <= TOL), "normalization divides by the maximum", **d)


def large(ctx):
    compile_now()
    items = [("plain", 13, 1), ("plain", 13, 2), ("plain", 17, 1), ("plain", 17, 3), ("accelerated", 24, 1), ("accelerated", 66, 1), ("accelerated", 130, 1), ("accelerated", 40, 2), ("parallel", 16, 1)]
    if ctx.thorough:
        items += [("plain", h, c) for h in (20, 33) for c in (1, 2)] + [("accelerated", h, c) for h in (48, 90, 184) for c in (1, 2)] + [("parallel", 24, 1), ("accelerated", 260, 1)]
    ctx.pmap(large_of, [(i, *x) for i, x in enumerate(sorted(items, key=lambda x: -x[1]*(3 if x[0] == "plain" else 1)))])


def estimates(ctx):
    """Estimated kernel sizes: the same for equivalent settings."""
    rng = ctx.rng("estimates")
    for k in range(ctx.scale(1500, 20000)):
        orders, pols, a, NA, wl, px, _, _, _ = case_of(rng, "plain", True)
        if rng.random() < 0.3:
            a = [x*float(rng.choice([0.1, 3.0, 10.0])) for x in a]
        ctx.case((k, str(orders), str(a), NA, wl, px), nontrivial=orders != [(0, 0)], orders=orders, alpha=a, NA=NA, wavelength=wl, px=px)
        with ctx.guard("the kernel size is estimated"):
            size = estimate(pols, a, NA, wl, px)
            ctx.ok(isinstance(size, (int, np.integer)) and size >= 3 and size % 2 == 1, "the estimated kernel size is an odd integer not less than 3", size=size)
            f = 2.0**int(rng.integers(-30, 31))
            ctx.ok(estimate(pols, a, NA, wl*f, px*f) == size, "the unit of length doesn't change the estimated kernel size", factor=f, size=size)
            ctx.ok(estimate(pols, [-x for x in a], NA, wl, px) == size, "the signs of the amplitudes don't change the estimated kernel size", size=size)
            if isinstance(pols, list):
                p = rng.permutation(len(pols))
                ctx.ok(estimate([pols[i] for i in p], [a[i] for i in p], NA, wl, px) == size, "the order of the polynomials doesn't change the estimated kernel size", size=size)
            elif rng.random() < 0.2:
                ctx.ok(estimate([pols], a, NA, wl, px) == size, "a set of one polynomial is that polynomial", size=size)
            q = float(rng.choice([1.0, 0.9, 0.5, 0.2])); smaller = estimate(pols, a, NA, wl, px*q)
            ctx.ok(smaller >= size, "smaller pixels don't shrink the estimated kernel", factor=q, size=size, got=smaller)


SECTIONS = [("laws", laws), ("large kernels", large), ("estimates", estimates)]
