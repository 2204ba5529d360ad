"""C10: least-squares fitting of vectors and images."""
import warnings
import numpy as np
from .. import oracle as o
from .. import monitors
from .c08 import oracle_sum

LEVEL = "exploration"
RULE = ("A case is one fit: polynomials, sampling points or image (shape, dtype, content), crop radius and flags. Non-trivial if the design "
        "matrix has full rank with at least two polynomials; distinct by all of these.")
ASSUMPTIONS = ["The reference is numpy.linalg.lstsq on a design matrix of oracle values; problems with condition number above 1e4 are not judged.",
               "Image radii may be rounded to 4 digits (as now) or not: coefficients of either version are accepted.",
               "Pixels whose rounded radius lies within 1e-4 of the cropping border may be in or out."]
TWO_PI = 2*np.pi


def design(orders, r, t):
    return np.column_stack([o.zernike(m, n, r, t) for m, n in orders])


def solve(A, b):
    return np.linalg.lstsq(A, b, rcond=None)[0]


def pick(rng, top, count):
    table = o.osa_table(top)
    if rng.random() < 0.3:
        count = min(count, len(table)); return [table[i] for i in range(count)]
    return [table[i] for i in rng.choice(len(table), min(count, len(table)), replace=False)]


def judge(ctx, got, options, tol, digits, **d):
    """got must be rounded and within tol of at least one reference."""
    want = options[0]
    if not ctx.ok(isinstance(got, np.ndarray) and got.shape == want.shape, "one coefficient per polynomial", got=np.shape(got), want=want.shape, **d):
        return
    ctx.ok(np.all(np.abs(got - np.round(got, digits)) <= 1e-9*(1 + np.abs(got))), "coefficients are rounded to the requested digits", got=got, digits=digits, **d)
    if tol > 0.05*np.max(np.abs(want), initial=1.0):
        ctx.event("ill-conditioned fits not judged"); return
    err = min(np.max(np.abs(got - w)) for w in options)
    ctx.ok(err <= 0.5000001*10.0**-digits + tol, "coefficients are the least-squares solution in the given order", got=got, want=want, digits=digits,
           error=err, tol=tol, **d)


# ---------------------------------------------------------------- vectors
def vectors_of(ctx, item):
    label, count = item
    big = str(label).startswith("large"); huge = str(label).startswith("huge")
    from zernpy import ZernPol, fit_polynomials_vectors
    rng = ctx.rng("vectors", label)
    for k in range(count):
        orders = pick(rng, [3, 6, 9, 12, 16][k % 5] if not huge else 4, int(rng.integers(20, 50) if big else rng.integers(1, 13 if not huge else 6)))
        mesh = rng.random() < 0.5
        if mesh:
            nr, nt = (int(rng.integers(30, 150)), int(rng.integers(50, 250))) if big else (int(rng.integers(300, 700)), int(rng.integers(350, 800))) if huge else (int(rng.integers(6, 25)), int(rng.integers(8, 40)))
            if nr == nt:
                nt += 1
            if rng.random() < 0.3:
                nr, nt = nt, nr
            if rng.random() < 0.12 and not (big or huge):  # profiles: one angle or one radius
                few = int(rng.integers(1, 5))
                if rng.random() < 0.5:
                    nr, nt = int(rng.integers(8, 60)), 1; orders = [(0, 0), (0, 2), (1, 3), (0, 4), (-2, 2), (1, 1)]
                else:
                    nr, nt = 1, int(rng.integers(8, 60)); orders = [(0, 0), (1, 1), (-2, 2), (3, 3), (-1, 1), (2, 2)]
                orders = [orders[i] for i in rng.permutation(6)[:few]]; ctx.event("meshes of one angle or one radius")
            r = np.sort(rng.random(nr)); t = np.sort(rng.uniform(0, TWO_PI, nt))
            if rng.random() < 0.2:
                r = rng.permutation(r); t = rng.permutation(t)
            R, T = np.repeat(r, nt), np.tile(t, nr)
        else:
            size = int(rng.integers(2000, 20000)) if big else int(rng.integers(100000, 600000)) if huge else int(rng.integers(3*len(orders) + 5, 300))
            r = np.sqrt(rng.random(size)); t = rng.uniform(0, TWO_PI, size); R, T = r, t
        A = design(orders, R, T)
        c = rng.uniform(-2, 2, len(orders)); c[rng.random(len(orders)) < 0.2] = 0.0
        kind = int(rng.integers(0, 4))
        if kind == 0:
            b = A @ c
        elif kind == 1:
            b = A @ c + rng.normal(0, 0.5, A.shape[0])
        elif kind == 2:
            b = rng.uniform(-5, 5, A.shape[0])
        else:
            b = np.round(3*A @ c).astype(int)
        digits = int(rng.choice([4, 4, 2, 7, 10, 0, 1, 13]))
        cond = np.linalg.cond(A)
        pols = tuple(ZernPol(m=m, n=n) for m, n in orders)
        ctx.case((orders, mesh, A.shape, kind, digits), nontrivial=len(orders) > 1 and cond < 1e4, terms=orders, data=["exact", "noisy", "random", "integer"][kind])
        if cond > 1e4:
            ctx.event("ill-conditioned fits not judged"); continue
        keep = b.copy(), r.copy(), t.copy()
        with ctx.guard("fit of vectors is computed"):
            got = fit_polynomials_vectors(pols, b, r, t, digits) if digits != 4 else fit_polynomials_vectors(pols, b, r, t)
            scale = np.max(np.abs(b)) + 1
            tol = 1e-11*cond*scale*len(orders)
            want = solve(A, b.astype(float))
            judge(ctx, got, [want], tol, digits, terms=orders, mesh=mesh, points=A.shape[0], kind=kind)
            if kind == 0:
                ctx.ok(np.max(np.abs(got - c)) <= 0.5000001*10.0**-digits + tol, "sums of the given polynomials are recovered", got=got, want=c, terms=orders)
            ctx.ok(all(np.array_equal(x, y) for x, y in zip(keep, (b, r, t))), "vectors are not modified")
            perm = rng.permutation(len(orders))
            got2 = fit_polynomials_vectors(tuple(pols[i] for i in perm), b, r, t, digits)
            ctx.ok(np.max(np.abs(got2 - got[perm])) <= 1.01*10.0**-digits + 2*tol, "coefficients follow the order of the polynomials", order=perm, got=got2, first=got)
            if kind == 0:
                absent = [x for x in o.osa_table(8) if x not in orders][:3]
                A2 = design(list(orders) + absent, R, T)
                if np.linalg.cond(A2) < 1e4:
                    got3 = fit_polynomials_vectors(pols + tuple(ZernPol(m=m, n=n) for m, n in absent), b, r, t, digits)
                    ctx.ok(np.max(np.abs(got3 - np.concatenate([c, np.zeros(len(absent))]))) <= 0.5000001*10.0**-digits + 100*tol,
                           "absent polynomials get zeros", got=got3, terms=orders, absent=absent)


def vectors(ctx):
    ctx.pmap(vectors_of, [(i, ctx.scale(40, 500)) for i in range(8)])
    ctx.pmap(vectors_of, [(f"large {i}", ctx.scale(3, 25)) for i in range(8)])
    ctx.pmap(vectors_of, [(f"huge {i}", ctx.scale(3, 20)) for i in range(4)], workers=4)


# ---------------------------------------------------------------- images
def geometry(rows, cols, crop, strict):
    """(radius, angle, surely inside, undecided) by the documented rules."""
    ci, cj = (rows - 1)/2, (cols - 1)/2
    lo, hi = min(rows, cols), max(rows, cols)
    r = (lo - 1)/2 if hi - lo >= 2 else (hi - 1)/2
    i, j = np.mgrid[0:rows, 0:cols]
    rho = np.hypot(i - ci, j - cj)/r
    theta = np.arctan2(ci - i, j - cj); theta = np.where(theta < 0, theta + TWO_PI, theta)
    eps = 0.055 if not strict and ((rows % 2 == 0 and cols % 2 == 0) or hi - lo == 1) else 0.001
    diff = rho - round(crop, 4) - eps
    return rho, theta, diff < -1.01e-4, np.abs(diff) <= 1.01e-4, eps


def unit_radii(rho, crop, strict, rounded):
    rho = np.round(rho, 4) if rounded else rho
    top = rho.max()
    if top > 1.0:
        rho = rho/top
        if rounded:
            rho = np.round(rho, 4)
    return np.minimum(rho, 1.0)


def image_cases(rng, thorough):
    shapes = [(3, 3), (4, 4), (5, 5), (3, 4), (4, 3), (3, 9), (9, 4), (5, 6), (6, 5), (6, 6), (7, 9), (8, 10), (10, 7), (21, 21), (22, 22), (21, 22),
              (22, 21), (20, 33), (34, 21), (31, 33), (30, 32), (41, 41), (40, 40), (12, 40)]
    for _ in range(150 if thorough else 24):
        shapes.append((int(rng.integers(3, 45)), int(rng.integers(3, 45))))
    return shapes


def image_of(ctx, item):
    k, (rows, cols), most = item
    from zernpy import ZernPol, fit_polynomials
    rng = ctx.rng("image", k, rows, cols)
    for rep in range(2 if most > 10 else (3 if not ctx.thorough else 6)):
        crop = [1.0, 1, 0.5, 0.8, 0.75, float(np.round(rng.uniform(0.5, 1.0), 4)), 0.95, float(rng.uniform(0.5, 1.0))][int(rng.integers(0, 8)) if rep else 0]
        strict = bool(rng.integers(2))
        rho, theta, sure, maybe, eps = geometry(rows, cols, crop, strict)
        points = int(sure.sum())
        count = max(1, min(most, points//4))
        orders = pick(rng, 2 if points < 30 else (4 if points < 150 else (7 if most <= 10 else int(rng.integers(7, 11)))), int(rng.integers(1 if most <= 10 else most//2, count + 1)))
        digits = int(rng.choice([4, 4, 6, 2, 0])); kind = int(rng.integers(0, 4)); dtype = ["float64", "float64", "float64", "int16"][kind]
        c = rng.uniform(-2, 2, len(orders))
        # image content: everywhere non-zero, so that the cropped image shows the used pixels
        inside0 = sure | maybe
        base = np.zeros((rows, cols)); rr = rho/max(1.0, rho[inside0].max())
        base[inside0] = sum(ci*o.zernike(m, n, rr[inside0], theta[inside0]) for (m, n), ci in zip(orders, c))
        if kind in (1, 3):
            base = base + rng.normal(0, 0.3, base.shape)
        elif kind == 2:
            base = rng.uniform(-4, 4, base.shape)
        base[~inside0] = rng.uniform(5, 30, (~inside0).sum())  # must not influence the fit
        if kind != 3 and rng.random() < 0.3:   # no values recorded outside of the aperture
            base[~inside0] = [np.nan, np.nan, np.inf, -np.inf][int(rng.integers(4))]; ctx.event("images without values outside of the aperture")
        if kind == 3:
            base = np.round(10*base)
        base[base == 0] = 1e-7 if kind != 3 else 1
        img = np.array(base, dtype=dtype, order="F" if rng.random() < 0.2 else "C")
        ctx.case((rows, cols, crop, strict, orders, kind, digits), nontrivial=len(orders) > 1, shape=(rows, cols), crop=crop, strict=strict, terms=orders)
        pols = [ZernPol(m=m, n=n) for m, n in orders]; pols = tuple(pols) if rng.random() < 0.7 else pols
        keep = img.copy()
        want_image = bool(rep != 2 or rng.integers(2))
        seen = []
        mon = RecordCoordinates(seen)
        with ctx.guard("fit of an image is computed"), mon:
            res = fit_polynomials(img, pols, crop_radius=crop, suppress_warnings=bool(rng.integers(2)), strict_circle_border=strict, round_digits=digits,
                                  return_cropped_image=want_image)
            ok = ctx.ok(isinstance(res, tuple) and len(res) == 2, "fit returns coefficients and cropped image", got=type(res).__name__)
            if not ok:
                continue
            got, cropped = res
            ctx.ok(np.array_equal(img, keep, equal_nan=img.dtype.kind == "f"), "input image is not modified", shape=(rows, cols))
            info = dict(shape=(rows, cols), crop=crop, strict=strict, terms=orders, kind=kind)
            if not want_image:
                ctx.ok(cropped is None, "no cropped image unless requested")
                used = sure | maybe
                if maybe.any():
                    continue
            else:
                if not ctx.ok(np.shape(cropped) == (rows, cols), "cropped image has the shape of the image", got=np.shape(cropped)):
                    continue
                used = np.asarray(cropped) != 0
                ctx.ok(np.array_equal(np.asarray(cropped)[used], keep[used]), "cropped image holds the values of the image", **info)
                wrong = (used != sure) & ~maybe
                ctx.ok(not wrong.any(), "cropped image shows the centred circle of the crop radius", pixels=np.argwhere(wrong)[:4].tolist(), eps=eps, **info)
                if wrong.any():
                    continue
            refs = []; A = None
            for rounded in (True, False):
                u = unit_radii(rho[used], crop, strict, rounded)
                A = design(orders, u, theta[used])
                refs.append(solve(A, keep[used].astype(float)))
            cond = np.linalg.cond(A)
            if A.shape[0] <= A.shape[1] or cond > 1e4:
                ctx.event("ill-conditioned fits not judged"); continue
            spread = np.max(np.abs(refs[0] - refs[1]))
            judge(ctx, got, refs, 1e-11*cond*(1 + np.max(np.abs(keep[used]))) + 1e-6*spread, digits, **info)
            if kind == 0:
                ctx.ok(np.max(np.abs(got - c)) <= 0.5000001*10.0**-digits + 2e-3*cond*sum(np.abs(c)), "image composed of the polynomials is recovered", got=got,
                       want=c, spread=spread, **info)
            # coordinates the library evaluated the polynomials at
            if seen:
                for r, t in seen[:2]:
                    u = unit_radii(rho[used], crop, strict, False)
                    if r.size != u.size:  # evaluated in another way (in parts)
                        continue
                    ctx.ok(np.max(np.abs(np.sort(r.ravel()) - np.sort(u))) <= 2e-4, "observed radii are those of the used pixels", **info)
                    ctx.ok(np.max(np.abs(np.exp(1j*t.ravel()*1) .sum() - np.exp(1j*theta[used]).sum())) <= 1e-8*u.size,
                           "observed angles are those of the used pixels", **info)
            ctx.event("fits with observed coordinates", int(bool(seen)))


class RecordCoordinates:
    """Observe the coordinates passed to polynomial_value during the fit."""

    def __init__(self, out):
        self.out = out

    def __enter__(self):
        from zernpy import ZernPol
        self.orig = ZernPol.__dict__["polynomial_value"]; out = self.out; orig = self.orig

        def polynomial_value(zp, r, theta, *a, **k):
            if isinstance(r, np.ndarray) and isinstance(theta, np.ndarray) and r.ndim == 1:
                out.append((r.copy(), theta.copy()))
            return orig(zp, r, theta, *a, **k)
        ZernPol.polynomial_value = polynomial_value
        return self

    def __exit__(self, *a):
        from zernpy import ZernPol
        ZernPol.polynomial_value = self.orig


def images(ctx):
    ctx.pmap(image_of, [(k, shape, 10) for k, shape in enumerate(image_cases(ctx.rng("shapes"), ctx.thorough))])


def large_images(ctx):
    rng = ctx.rng("large shapes")
    shapes = [(101, 101), (120, 120), (128, 161), (200, 90), (90, 200), (151, 150), (211, 211), (256, 256), (401, 402), (640, 333)]
    shapes += [(int(rng.integers(60, 260)), int(rng.integers(60, 260))) for _ in range(ctx.scale(6, 60))]
    ctx.pmap(image_of, [(1000 + k, shape, 30) for k, shape in enumerate(shapes)])


def invariance(ctx):
    """Pixels outside of the crop do not influence the result; transposition exchanges the sin and cos terms suitably."""
    from zernpy import ZernPol, fit_polynomials
    rng = ctx.rng("invariance")
    for k in range(ctx.scale(20, 150)):
        n = int(rng.integers(15, 40)); crop = float(rng.choice([1.0, 0.9, 0.7, 0.5])); strict = bool(rng.integers(2))
        orders = list(o.osa_table(3)); pols = tuple(ZernPol(m=m, n=n_) for m, n_ in orders)
        img = rng.normal(0, 1, (n, n)) + 3
        rho, theta, sure, maybe, eps = geometry(n, n, crop, strict)
        out = ~(sure | maybe)
        ctx.case((n, crop, strict, k))
        with ctx.guard("fit of an image is computed"):
            a, _ = fit_polynomials(img, pols, crop, True, strict, 6)
            img2 = img.copy(); img2[out] = rng.uniform(-100, 100, out.sum())
            b, _ = fit_polynomials(img2, pols, crop, True, strict, 6)
            ctx.ok(np.array_equal(a, b), "pixels outside of the circle do not influence the coefficients", n=n, crop=crop)
            b, _ = fit_polynomials(np.flipud(img), pols, crop, True, strict, 6)
            sign = np.array([-1 if m < 0 else 1 for m, _ in orders])
            if not maybe.any():
                ctx.ok(np.max(np.abs(b - sign*a)) <= 3e-6, "flipped image changes the signs of the sin terms", n=n, crop=crop, got=b, want=sign*a)
                b, _ = fit_polynomials(np.fliplr(img), pols, crop, True, strict, 6)
                sign = np.array([(-1)**m if m >= 0 else (-1)**(m + 1) for m, _ in orders])
                ctx.ok(np.max(np.abs(b - sign*a)) <= 3e-6, "mirrored image changes the signs accordingly", n=n, crop=crop, got=b, want=sign*a)
            b, _ = fit_polynomials(-2.5*img, pols, crop, True, strict, 6)
            ctx.ok(np.max(np.abs(b + 2.5*a)) <= 5e-6, "coefficients are linear in the image", n=n, crop=crop)


def magnitudes(ctx):
    """Data of any magnitude (metres, nanometres, counts) and weak terms besides strong ones."""
    from zernpy import ZernPol, fit_polynomials, fit_polynomials_vectors
    rng = ctx.rng("magnitudes")
    for k in range(ctx.scale(40, 400)):
        power = int(rng.integers(-15, 13)); s = 10.0**power; digits = 9 - power; orders = pick(rng, 4, int(rng.integers(2, 8))); pols = tuple(ZernPol(m=m, n=n) for m, n in orders)
        size = int(rng.integers(80, 400)); r = np.sqrt(rng.random(size)); t = rng.uniform(0, TWO_PI, size); A = design(orders, r, t); cond = np.linalg.cond(A)
        if cond > 100:
            continue
        ctx.case(("magnitude", power, orders, k), power=power, terms=orders)
        with ctx.guard("data of any magnitude are fitted"):
            b = s*(A @ rng.uniform(-2, 2, len(orders)) + rng.normal(0, 0.1, size)); got = np.asarray(fit_polynomials_vectors(pols, b, r, t, digits)); want = solve(A, b)
            ctx.ok(np.max(np.abs(got - want)) <= 2e-9*s*max(1.0, np.max(np.abs(want))/s), "coefficients of data of any magnitude are the least-squares solution", got=got, want=want, power=power, terms=orders)
            c = rng.uniform(0.5, 2, len(orders))*rng.choice([-1, 1], len(orders)); weak = rng.random(len(orders)) < 0.5; c[weak] *= 10.0**rng.integers(-11, -2, int(weak.sum()))
            got = np.asarray(fit_polynomials_vectors(pols, A @ c, r, t, 15))
            ctx.ok(np.max(np.abs(got - c)) <= 1e-14*cond*len(orders)*size**0.5, "weak terms besides strong ones are recovered", got=got, want=c, terms=orders)
            n = int(rng.integers(12, 40)); m = n + int(rng.choice([0, 0, 1, 5])); img = rng.normal(0, 1, (n, m)) + 2; strict = bool(rng.integers(2)); crop = float(rng.choice([1.0, 0.8]))
            base, cut = fit_polynomials(img, pols, crop, True, strict, 12, True); got, cut2 = fit_polynomials(img*s, pols, crop, True, strict, 12 - power, True)
            ctx.ok(np.max(np.abs(np.asarray(got)/s - base)) <= 1e-10*(1 + np.max(np.abs(base))), "coefficients are linear in the image", power=power, got=got, base=base, shape=(n, m), strict=strict, crop=crop)
            ctx.ok(np.array_equal(cut2, cut*s) or np.max(np.abs(cut2 - cut*s)) <= 1e-14*s*10, "the cropped image holds the values of the image", power=power, shape=(n, m))


def library_images(ctx):
    """Images of the generator are recovered approximately (the circle of the generator is slightly larger than that of the fit)."""
    from zernpy import ZernPol, fit_polynomials, generate_phases_image
    rng = ctx.rng("library")
    for k in range(ctx.scale(3, 20)):
        size = int(rng.choice([101, 121])); orders = pick(rng, 4, 4); c = rng.uniform(-1, 1, len(orders))
        pols = tuple(ZernPol(m=m, n=n) for m, n in orders)
        ctx.case((size, orders, k), terms=orders)
        with ctx.guard("fit of a generated image is computed"):
            img = generate_phases_image(pols, c.tolist(), size, size)
            got, _ = fit_polynomials(img, generate_all(4), suppress_warnings=True)
            want = np.array([dict(zip(orders, c)).get(x, 0.0) for x in o.osa_table(4)])
            ctx.ok(np.max(np.abs(got - want)) < 0.25*(1 + np.sum(np.abs(c))), "generated image is recovered approximately", got=got, want=want)


def generate_all(order):
    from zernpy import generate_polynomials
    return generate_polynomials(order)


def rejections(ctx):
    from zernpy import ZernPol, fit_polynomials, fit_polynomials_vectors
    rng = ctx.rng("reject")
    img = rng.random((9, 9)); p = (ZernPol(m=1, n=1), ZernPol(m=0, n=2))
    v = rng.random(30), rng.random(30), rng.uniform(0, 6, 30)
    for k in range(ctx.scale(30, 200)):
        orders = pick(rng, 5, int(rng.integers(1, 7)))
        dup = [ZernPol(m=m, n=n) for m, n in orders]; i = int(rng.integers(len(dup))); j = int(rng.integers(len(dup) + 1))
        dup.insert(j, ZernPol(osa=o.osa_table(5).index(orders[i]))); dup = tuple(dup)
        ctx.case(("repeated", orders, i, j))
        ctx.raises(ValueError, lambda: fit_polynomials(img, dup, suppress_warnings=True), "repeated polynomials are rejected (image)", terms=orders, repeated=i, at=j)
        ctx.raises(ValueError, lambda: fit_polynomials_vectors(dup, *v), "repeated polynomials are rejected (vectors)", terms=orders, repeated=i, at=j)
    ctx.case("no polynomials")
    for at in range(3):  # documented for one-dimensional arrays only
        w = [np.asarray(x) for x in v]; w[at] = w[at][:, None] if at % 2 else w[at][None, :]
        ctx.raises(Exception, lambda: fit_polynomials_vectors(p, *w), "vectors of more than one dimension are rejected", at=at)
    ctx.raises(ValueError, lambda: fit_polynomials(img, (), suppress_warnings=True), "missing polynomials are rejected (image)")
    ctx.raises(ValueError, lambda: fit_polynomials_vectors((), *v), "missing polynomials are rejected (vectors)")
    for k in range(ctx.scale(300, 3000)):  # numbers of phases which don't match the points
        nr, nt = int(rng.integers(1, 12)), int(rng.integers(1, 12)); nr = nt if rng.random() < 0.4 else nr; points = nr if nr == nt else nr*nt
        n = [points + int(rng.integers(1, 9)), int(rng.integers(1, 150)), points*int(rng.integers(2, 4)), points - 1][k % 4]
        if n != points and n > 0 and not (nr == nt and n == nr*nt):
            ctx.case(("lengths", n, nr, nt))
            ctx.raises(ValueError, lambda: fit_polynomials_vectors(p, rng.random(n), rng.random(nr), rng.uniform(0, 6, nt)), "a number of phases which doesn't match the points is rejected",
                       phases=n, radii=nr, angles=nt)
    for shape in [(9,), (3, 3, 3), (9, 9, 1), (1, 9, 9), (2, 2), (2, 9), (9, 2), (1, 1), (1, 30), (2, 3), (0, 0), (5, 0)]:
        ctx.case(("shape", shape))
        ctx.raises(ValueError, lambda: fit_polynomials(np.ones(shape), p, suppress_warnings=True), "non-2D or too small image is rejected", shape=shape)
    for x in ([[1.0]*5]*5, "image", None, 5.0):
        ctx.case(("kind", type(x).__name__))
        ctx.raises(ValueError, lambda: fit_polynomials(x, p, suppress_warnings=True), "an image which is not an array is rejected", kind=type(x).__name__)
    for crop in (0.49, 0.4999, 0.0, -1.0, 1.0001, 1.1, 2, 100.0, float("nan")):
        ctx.case(("crop", str(crop)))
        ctx.raises(ValueError, lambda: fit_polynomials(img, p, crop_radius=crop, suppress_warnings=True), "crop radius out of [0.5, 1] is rejected", crop=crop)
    for crop in (0.5, 1.0, 1, 0.50004, 1.00004):
        ctx.case(("accepted crop", crop))
        with ctx.guard("crop radius within [0.5, 1] (rounded to 4 digits) is accepted"):
            fit_polynomials(img, p, crop_radius=crop, suppress_warnings=True)
    for shape, warns in [((9, 9), False), ((9, 10), True), ((10, 10), True), ((9, 11), True)]:
        for sup in (False, True):
            ctx.case(("warning", shape, sup))
            with warnings.catch_warnings(record=True) as w, ctx.guard():
                warnings.simplefilter("always")
                fit_polynomials(rng.random(shape), p, suppress_warnings=sup)
                ctx.ok((len(w) > 0) == (warns and not sup), "warnings about ambiguous shapes appear unless suppressed", shape=shape, suppressed=sup, got=len(w))


def monitored(ctx):
    mon = monitors.CallMonitor(ctx, values=("polynomial_value",), inputs=True)
    from zernpy import generate_random_phases, fit_polynomials
    import random
    rng = ctx.rng("monitored")
    with monitors.installed(mon):
        for k in range(ctx.scale(6, 40)):
            ctx.case(("monitored fit", k)); random.seed(int(rng.integers(2**31)))
            with ctx.guard():
                img, amps, pols = generate_random_phases(int(rng.integers(1, 6)), int(rng.integers(9, 40)), int(rng.integers(9, 40)))
                fit_polynomials(img, pols[:6], crop_radius=float(rng.uniform(0.6, 1)), suppress_warnings=True)


SECTIONS = [("vectors", vectors), ("images", images), ("large images", large_images), ("invariance", invariance), ("magnitudes", magnitudes), ("library images", library_images), ("rejections", rejections),
            ("monitored programs", monitored)]
