"""C16: cropping of kernels, judged against the original kernel."""
import warnings
import numpy as np
from .. import oracle as o
from .c11 import physical, amplitudes, calculate
from .c12 import new

LEVEL = "exploration"
RULE = ("A case is one crop_kernel call on a kernel (calculated or set) with a parameter; non-trivial if at least one border line was removed or a single "
        "value prevented the removal; distinct by kernel and parameter.")
ASSUMPTIONS = ["Values closer than 1e-12 (relative) to the limit, but not equal, are not generated; equality is generated with limits exact in binary."]


def expected(K, part):
    """Number of removed rings, by definition: lines which are entirely below part of the maximum, in steps of all four sides."""
    limit = part*K.max(); n = K.shape[0]; k = 0
    while k < n//2 and all((line < limit).all() for line in (K[k], K[n - 1 - k], K[:, k], K[:, n - 1 - k])):
        k += 1
    return k


def judge(ctx, psf, K, limit_part, **d):
    """psf.kernel is K (a copy of it); crop and look at the result."""
    held = psf.kernel; n = K.shape[0]; part = limit_part
    with ctx.guard("cropping works"):
        r = psf.crop_kernel() if part is None else psf.crop_kernel(min_part_of_max=part)
        p = 0.01 if part is None else part; d["part"] = p
        C = np.asarray(psf.kernel); limit = p*K.max()
        ctx.ok(np.array_equal(held, K), "the values of the original kernel stay unchanged")
        if not ctx.ok(C.ndim == 2 and C.shape[0] == C.shape[1] and C.shape[0] % 2 == 1 and 0 < C.shape[0] <= n, "the result is a square with odd size", got=C.shape, **d):
            return 0
        k = (n - C.shape[0])//2
        ctx.ok(np.array_equal(C, K[k:n - k, k:n - k]), "the result is the central part with unchanged values", removed=k, **d)
        ctx.ok(psf.kernel_size == C.shape[0], "kernel_size equals the new size", got=psf.kernel_size, want=C.shape[0], **d)
        for q in range(k):
            ctx.ok(max(K[q].max(), K[n - 1 - q].max(), K[:, q].max(), K[:, n - 1 - q].max()) < limit, "removed lines lie below the limit", line=q, limit=limit, **d)
        if n > 3:
            ctx.ok(max(C[0].max(), C[-1].max(), C[:, 0].max(), C[:, -1].max()) >= limit, "the outermost ring has a value not below the limit", limit=limit, removed=k, **d)
            want = expected(K, p)
            ctx.ok(k == want, "exactly the negligible rings are removed", got=k, want=want, **d)
        before = C.copy()
        psf.crop_kernel(p)
        ctx.ok(np.array_equal(psf.kernel, before) and psf.kernel_size == before.shape[0], "cropping again changes nothing", first=before.shape, second=np.shape(psf.kernel), **d)
        ctx.event("rings removed", k); ctx.event("cropped" if k else "kept")
        return k
    return 0


def holder(K, order=0):
    from zernpy import ZernPol, ZernPSF
    psf = ZernPSF(ZernPol(osa=5)); psf.kernel = np.asfortranarray(K) if order == 1 else (np.repeat(np.repeat(K, 2, 0), 2, 1)[::2, ::2] if order == 2 else K.copy())
    psf.kernel_size = K.shape[0]
    return psf


def single_values(ctx):
    """One value at each border position decides; equality keeps the line."""
    for n in (5, 7, 9, 11) + ((15, 21) if ctx.thorough else ()):
        c = n//2
        for scale in (1.0, 0.125, 512.0):
            for part, value in ((0.25, 0.25), (0.25, 0.2499), (0.25, 0.2501), (0.125, 0.125), (0.0625, 0.06), (0.4375, 0.4375), (0.4375, 0.43)):
                for i in range(n):
                    for j in range(n):
                        if (n > 7 and (i*n + j) % 5) or (i, j) == (c, c):
                            continue
                        K = np.zeros((n, n)); K[c, c] = 1.0; K[i, j] = value; K *= scale
                        ctx.case((n, scale, part, value, i, j), n=n, part=part, value=value, at=(i, j), scale=scale)
                        judge(ctx, holder(K, (i + j) % 3), K, part, at=(i, j), value=value)


def random_of(ctx, item):
    label, count = item
    rng = ctx.rng("random", label)
    for k in range(count):
        n = int(rng.choice([1, 3, 5, 5, 7, 9, 13, 21, 41, 75, 101 if k % 3 else 301])); c = n//2; i, j = np.mgrid[0:n, 0:n] - c
        sy, sx = rng.uniform(0.3, n, 2); K = np.exp(-(i - rng.normal()*n/8)**2/sy**2 - (j - rng.normal()*n/8)**2/sx**2)
        kind = int(rng.integers(0, 5))
        if kind == 1: K = K*rng.random((n, n))
        elif kind == 2: K[rng.integers(0, n), rng.integers(0, n)] = 2.0   # the maximum anywhere, also at the border
        elif kind == 3: K = K*(rng.random((n, n)) < 0.1); K[c, c] = max(K.max(), 1e-3)
        elif kind == 4: K = K*float(rng.choice([1e-9, 1e-300, 1e9]))
        part = [None, 0.01, float(rng.uniform(1e-6, 0.4999)), float(rng.uniform(0.001, 0.1)), 0.4999, 1e-9, float(rng.uniform(0.2, 0.49))][int(rng.integers(7))]
        limit = (0.01 if part is None else part)*K.max()
        if np.any((np.abs(K - limit) < 1e-12*limit) & (K != limit)):
            continue
        psf = holder(K, k % 3); psf.kernel_size = n
        ctx.case((label, k), nontrivial=expected(K, part or 0.01) > 0, n=n, part=part, kind=kind)
        judge(ctx, psf, K, part, n=n, kind=kind)
        # a second, stronger crop of the already cropped one gives the same as the direct one
        if n > 3 and part is not None and part < 0.3:
            p2 = min(0.49, part*float(rng.uniform(1.2, 4))); lim2 = p2*K.max()
            if not np.any((np.abs(K - lim2) < 1e-12*lim2)):
                C = np.array(psf.kernel)
                if C.shape[0] > 3 and C.max() == K.max():
                    ctx.case((label, k, "second")); judge(ctx, psf, C, p2, n=n, kind="second")
                    other = holder(K); other.crop_kernel(p2); ctx.ok(np.array_equal(other.kernel, psf.kernel), "stepwise and direct cropping agree", got=psf.kernel.shape, want=other.kernel.shape)


def random(ctx):
    ctx.pmap(random_of, [(i, ctx.scale(250, 4000)) for i in range(8)])


def calculated(ctx):
    """Kernels of the library, accelerated, all sizes."""
    from zernpy import ZernPol
    rng = ctx.rng("calculated")
    for k in range(ctx.scale(30, 250)):
        n = int(rng.integers(0, 7)); m = int(rng.choice(np.arange(-n, n + 1, 2))); NA, wl, px = physical(rng)
        a = amplitudes(rng, [(m, n)])[0]; size = int(rng.choice([5, 11, 21, 31]))
        ctx.case((k, m, n, float(a), size), m=m, n=n, alpha=float(a), size=size)
        with ctx.guard("cropping works"):
            psf = new(ZernPol(m=m, n=n), float(a*wl), NA, wl, px, size, 40, 60)
            K = calculate(psf, normalized=bool(k % 2), accelerated=n > 0).copy()
            judge(ctx, psf, K, float(rng.choice([0.01, 0.05, 0.2, 0.45])), m=m, n=n)
            if psf.kernel_size >= 3:  # the next calculation uses the new size
                K2 = calculate(psf, normalized=False, accelerated=n > 0)
                ctx.ok(K2.shape == (psf.kernel_size,)*2, "the next calculated kernel has the cropped size")


def pending(ctx):
    """The size specified for the next calculation differs from that of the present kernel."""
    import contextlib
    import io
    import warnings
    rng = ctx.rng("pending")
    for k in range(ctx.scale(300, 3000)):
        n = int(rng.choice([5, 7, 9, 13])); dark = int(rng.integers(0, n//2)); size = int(rng.choice([3, 4, 5, 7, 9, 25])); part = float(rng.choice([0.01, 0.1, 0.3, 0.49]))
        K = rng.uniform(0.5, 1.0, (n, n)); inner = np.zeros((n, n), bool); inner[dark:n - dark, dark:n - dark] = True; K[~inner] *= 1e-3
        ctx.case((k, n, dark, size, part), nontrivial=dark > 0 and size != n, n=n, dark=dark, pending=size, part=part)
        with ctx.guard("cropping works"):
            psf = holder(K)
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore"); psf.set_calculation_props(size, 20, 36)
            stored = psf.kernel_size; psf.crop_kernel(part); C = np.asarray(psf.kernel); q = expected(K, part); ctx.event("kernels with another size pending", int(stored != n))
            ctx.ok(C.shape == (n - 2*q, n - 2*q) and np.array_equal(C, K[q:n - q, q:n - q]), "the present kernel is cropped whatever size is specified for the next one", got=C.shape, want=n - 2*q, pending=size)
            if q > 0:
                ctx.ok(psf.kernel_size == C.shape[0], "kernel_size equals the new size", got=psf.kernel_size, want=C.shape[0])
            else:
                ctx.ok(psf.kernel_size in (stored, n), "a kernel which isn't cropped keeps its size", got=psf.kernel_size)


def rejected(ctx):
    rng = ctx.rng("rejected")
    for n in (5, 7, 19):
        K = rng.random((n, n)); K[[0, -1]] *= 1e-6; K[:, [0, -1]] *= 1e-6
        for part in (0.0, -0.0, -1e-9, -0.1, -5, 0, 0.5, 0.50001, 0.7, 1.0, 1, 2, 100.0, float("inf"), -float("inf"), float("nan")):
            psf = holder(K); ctx.case((n, part), n=n, part=part)
            ctx.raises(ValueError, lambda: psf.crop_kernel(part), "parameters outside (0, 0.5) are rejected with ValueError", part=part)
            ctx.ok(np.array_equal(psf.kernel, K) and psf.kernel_size == n, "a rejected call leaves the kernel unchanged", part=part)
    for n in (1, 3):
        for part in (0.01, 0.3):
            K = rng.random((n, n))*0.001; K[n//2, n//2] = 1; psf = holder(K); ctx.case((n, part, "small"))
            with ctx.guard("cropping works"):
                psf.crop_kernel(part); C = psf.kernel
                ctx.ok(C.shape[0] % 2 == 1 and psf.kernel_size == C.shape[0], "the result is a square with odd size", got=C.shape)


SECTIONS = [("single values", single_values), ("random kernels", random), ("calculated kernels", calculated), ("pending sizes", pending), ("rejected", rejected)]
