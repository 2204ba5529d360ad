"""C01: values of the polynomials against the definition."""
import warnings
import numpy as np
from .. import oracle as o
from .. import monitors

LEVEL = "exploration"
RULE = ("A case is one (m, n) with its set of radii and angles (edges of the ranges, points next to them, random points), or one "
        "monitored program. It is non-trivial if the polynomial was evaluated and compared; distinct by (m, n), mode and points.")
ASSUMPTIONS = ["The oracle evaluates the definition exactly with fractions, and by a stable Jacobi recurrence validated against it in each run.",
               "Tolerance: 40 * eps * sum |coefficient| r^k of the explicit sum of the order (recurrence amplification for n > 40)."]
CHEAP = 20  # the smaller |m| of n > 49 take seconds to minutes in the library: sampled in the section 'slow orders'


def points(rng, k):
    r = np.concatenate([[0.0, 1.0, 0.5, 1e-12, np.nextafter(1.0, 0.0), 0.9999], rng.random(k), 1 - 0.2*rng.random(k//2)**3])
    t = rng.uniform(0, 2*np.pi, r.size)
    t[:6] = [0.0, np.pi/2, np.pi, 3*np.pi/2, 2*np.pi, np.pi/4]
    return r, t


def one_order(ctx, item):
    n, ms, label = item
    from zernpy import ZernPol
    rng = ctx.rng("values", n, label)
    for m in ms:
        r, t = points(rng, ctx.scale(24, 60) if n <= 40 else 10)
        rng.shuffle(t)
        z = ZernPol(m=m, n=n)
        ctx.case((m, n), r=r[:8], theta=t[:8])
        with ctx.guard():
            for exact in ((False, True) if n <= 40 else (False,)):
                v = z.polynomial_value(r, t, use_exact_eq=exact); e = o.zernike(m, n, r, t); tol = o.tol_zernike(n, m, r, t)
                bad = ~(np.abs(v - e) <= tol)
                ctx.ok(not bad.any(), "polynomial_value equals the definition", exact=exact, r=r[bad][:3], theta=t[bad][:3],
                       got=np.asarray(v)[bad][:3] if np.shape(v) == np.shape(bad) else v, want=e[bad][:3], tol=tol[bad][:3])
                v = z.radial(r, use_exact_eq=exact); e = o.radial(n, m, r); tol = o.tol_radial(n, m, r)
                bad = ~(np.abs(v - e) <= tol)
                ctx.ok(not bad.any(), "radial equals the definition", exact=exact, r=r[bad][:3], got=np.asarray(v)[bad][:3], want=e[bad][:3])
            # scalars take other branches; and the exact rational value
            for i in rng.choice(r.size, ctx.scale(3, 8) if n <= 46 else 1, replace=False):
                ri, ti = float(r[i]), float(t[i])
                for exact in ((False, True) if n <= 40 else (False,)):
                    v = z.polynomial_value(ri, ti, use_exact_eq=exact); e = float(o.radial_exact(n, m, ri))
                    want = o.normf(n, m)*e*float(o.triangular(m, ti))
                    ctx.ok(abs(v - want) <= o.tol_zernike(n, m, ri, ti), "polynomial_value of scalars equals the exact rational value",
                           exact=exact, r=ri, theta=ti, got=v, want=want)
                    v = z.radial(ri, use_exact_eq=exact)
                    ctx.ok(abs(v - e) <= o.tol_radial(n, m, ri), "radial of a scalar equals the exact rational value", exact=exact, r=ri,
                           got=v, want=e)


def slow_order(ctx, item):
    """One vector call for an order whose evaluation takes seconds."""
    m, n = item
    from zernpy import ZernPol
    rng = ctx.rng("slow", n, m)
    r, t = points(rng, 30)
    ctx.case((m, n, "slow"), r=r[:8], theta=t[:8])
    v = ZernPol(m=m, n=n).polynomial_value(r, t); e = o.zernike(m, n, r, t)
    bad = ~(np.abs(v - e) <= o.tol_zernike(n, m, r, t))
    ctx.ok(not bad.any(), "polynomial_value equals the definition", r=r[bad][:3], theta=t[bad][:3], got=np.asarray(v)[bad][:3], want=e[bad][:3])


def slow_values(ctx):
    rng = ctx.rng("slow choice")
    per = ctx.scale(1, 4)
    items = []
    for n in range(54, 47, -1):
        low = [m for m in range(-n, n + 1, 2) if abs(m) < n - CHEAP]
        items += [(int(m), n) for m in rng.choice(low, per, replace=False)]
    ctx.pmap(slow_order, items)


def values(ctx):
    ctx.extra["oracle_selfcheck"] = o.selfcheck(ctx.rng("oracle"), ctx.scale(60, 400))
    items = []
    for n in range(54, -1, -1):
        ms = list(range(-n, n + 1, 2))
        if n <= 44:
            items.append((n, ms, "all"))
        elif n <= ctx.scale(47, 49):
            items += [(n, [m for m in ms if m < 0], "neg"), (n, [m for m in ms if m >= 0], "pos")]
        elif ctx.thorough:
            items.append((n, [m for m in ms if abs(m) >= n - CHEAP], "high"))
        else:
            items.append((n, [m for m in ms if abs(m) >= n - CHEAP + 6], "high"))
    ctx.pmap(one_order, items)


def beyond_limit(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("limit")
    for n in range(41, 55):
        for m in sorted({int(x) for x in rng.choice(np.arange(-n, n + 1, 2), 4)} | {n, -n}):
            z = ZernPol(m=m, n=n)
            for r in (0.3, rng.random(5), rng.random((2, 3))):
                ctx.case((m, n, np.shape(r)), exact=True)
                with warnings.catch_warnings(record=True) as w, ctx.guard():
                    warnings.simplefilter("always")
                    v = z.polynomial_value(r, r*6.0, use_exact_eq=True); v2 = z.radial(r, use_exact_eq=True)
                    ctx.ok(np.shape(v) == np.shape(r) and np.all(v == 0.0) and np.shape(v2) == np.shape(r) and np.all(v2 == 0.0),
                           "exact form above the limit gives zeros of the shape of r", got=v)
                    ctx.ok(len(w) >= 2, "exact form above the limit warns", warnings=len(w))


def scale_free(ctx):
    """Known identities of the definition at special points, for all polynomials the run can afford."""
    from zernpy import ZernPol
    for m, n in o.all_orders(ctx.scale(38, 40)):
        z = ZernPol(m=m, n=n); ctx.case((m, n, "identities"))
        with ctx.guard():
            one = z.radial(1.0); zero = z.radial(0.0)
            ctx.ok(abs(one - 1.0) <= o.tol_radial(n, m, 1.0), "R(1) = 1", got=one)
            want = (-1.0)**(n//2) if m == 0 else 0.0
            ctx.ok(abs(zero - want) <= 1e-12, "R(0) = (-1)^(n/2) for m = 0, else 0", got=zero, want=want)


LARGE = [(1000,), (1001,), (1024,), (4096,), (4097,), (5000,), (10007,), (16385,), (32769,), (65537,), (100003,), (200, 300), (257, 256), (61, 999), (40, 50, 30)]


def large_of(ctx, item):
    """Large arrays: an evaluation in blocks or with lookup must give the same for each element, also for the last ones."""
    m, n = item
    from zernpy import ZernPol
    rng = ctx.rng("large", m, n)
    for j in rng.choice(len(LARGE), ctx.scale(2, len(LARGE)), replace=False):
        shape = LARGE[int(j)]
        r = rng.random(shape); t = rng.uniform(0, 2*np.pi, shape)
        kind = int(rng.integers(0, 4))
        if kind == 0:
            r = np.sort(r, axis=-1); t = np.sort(t, axis=-1)
        elif kind == 1:
            r = np.round(r, 2); t = np.round(t, 1)  # repeated values
        elif kind == 2:
            r = r.T; t = t.T
        z = ZernPol(m=m, n=n); ctx.case((m, n, "large", shape, kind), shape=np.shape(r))
        with ctx.guard():
            for name, f, e, tol in (("polynomial_value", lambda x: z.polynomial_value(r, t, use_exact_eq=x), o.zernike(m, n, r, t), 2*o.tol_zernike(n, m, r, t)),
                                    ("radial", lambda x: z.radial(r, use_exact_eq=x), o.radial(n, m, r), 2*o.tol_radial(n, m, r))):
                for exact in (False, True):
                    v = f(exact)
                    if not ctx.ok(np.shape(v) == np.shape(r), f"{name} of a large array has its shape", got=np.shape(v), want=np.shape(r), exact=exact):
                        continue
                    bad = ~(np.abs(v - e) <= tol)
                    ctx.ok(not bad.any(), f"{name} equals the definition in each element of a large array", exact=exact, count=int(bad.sum()),
                           index=np.argwhere(bad)[:3].tolist(), r=r[bad][:3], got=v[bad][:3], want=e[bad][:3])
                    ctx.event("elements of large arrays compared", int(r.size))


def large(ctx):
    rng = ctx.rng("large choice")
    items = [(m, n) for n in range(0, 16) for m in range(-n, n + 1, 2)]
    items += [(int(m), n) for n in range(16, 41) for m in rng.choice(np.arange(-n, n + 1, 2), ctx.scale(2, 8), replace=False)]
    ctx.pmap(large_of, items)


HUGE = [(131073,), (200001,), (262144,), (262145,), (300007,), (524289,), (1000003,), (1048577,), (601, 707), (1001, 1003), (2, 3, 70001), (400001, 1), (1, 250007)]


def huge_of(ctx, item):
    """Arrays of millions of elements, with sizes next to (multiples of) powers of two, even and odd; each element against the definition."""
    m, n = item
    from zernpy import ZernPol
    rng = ctx.rng("huge", m, n)
    for j in rng.choice(len(HUGE), ctx.scale(2, 6), replace=False):
        shape = HUGE[int(j)]
        if rng.random() < 0.3:
            shape = (int(rng.integers(100000, 900000)),)
        r = rng.random(shape); t = rng.uniform(0, 2*np.pi, shape)
        z = ZernPol(m=m, n=n); ctx.case((m, n, "huge", shape), shape=shape)
        with ctx.guard():
            for name, f, e, tol in (("polynomial_value", lambda: z.polynomial_value(r, t), lambda: o.zernike(m, n, r, t), lambda: 2*o.tol_zernike(n, m, r, t)),
                                    ("polynomial_value (exact)", lambda: z.polynomial_value(r, t, use_exact_eq=True), lambda: o.zernike(m, n, r, t), lambda: 2*o.tol_zernike(n, m, r, t)),
                                    ("radial", lambda: z.radial(r), lambda: o.radial(n, m, r), lambda: 2*o.tol_radial(n, m, r))):
                v = f(); e = e(); tol = tol()
                if not ctx.ok(np.shape(v) == shape, f"{name} of a large array has its shape", got=np.shape(v), want=shape):
                    continue
                bad = ~(np.abs(v - e) <= tol)
                ctx.ok(not bad.any(), f"{name} equals the definition in each element of a large array", count=int(bad.sum()),
                       index=np.argwhere(bad)[:3].tolist(), r=r[bad][:3], theta=t[bad][:3], got=v[bad][:3], want=e[bad][:3])
                ctx.event("elements of huge arrays compared", int(r.size))


def huge(ctx):
    rng = ctx.rng("huge choice")
    items = [(int(m), n) for n in range(0, 41, ctx.scale(3, 1)) for m in rng.choice(np.arange(-n, n + 1, 2), 1 if n > 14 else min(n + 1, 2), replace=False)]
    ctx.pmap(huge_of, items, workers=6)


def monitored(ctx):
    mon = monitors.CallMonitor(ctx, values=("polynomial_value", "radial"))
    monitors.run_workloads(ctx, mon, ctx.scale(3, 25))


SECTIONS = [("values", values), ("slow orders", slow_values), ("limit", beyond_limit), ("identities", scale_free), ("large arrays", large), ("huge arrays", huge), ("monitored programs", monitored)]
