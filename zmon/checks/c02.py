"""C02: derivatives, angular functions and normalization against their definitions."""
import warnings
import numpy as np
from .. import oracle as o
from .. import monitors

LEVEL = "exploration"
RULE = ("A case is one (m, n) with its sets of radii and angles, or one monitored program; non-trivial if a derivative, an angular "
        "function or a norm was compared; distinct by (m, n), function and points.")
ASSUMPTIONS = ["The oracle differentiates the exact integer polynomial; fast form by Jacobi recurrences validated against it in each run.",
               "Tolerance: 40 * eps * sum |k coefficient| r^(k-1) of the order (recurrence amplification for n > 38)."]


def points(rng, k):
    return np.concatenate([[0.0, 1.0, 0.5, 1e-12, np.nextafter(1.0, 0.0)], rng.random(k), 1 - 0.2*rng.random(k//2)**3])


def one_order(ctx, item):
    n, ms, label = item
    from zernpy import ZernPol
    rng = ctx.rng("dr", n, label)
    for m in ms:
        r = points(rng, ctx.scale(24, 60) if n <= 40 else 10)
        z = ZernPol(m=m, n=n); ctx.case((m, n, "dr"), r=r[:8])
        with ctx.guard():
            for exact in ((False, True) if n <= 38 else (False,)):
                v = z.radial_dr(r, use_exact_eq=exact); e = o.radial_dr(n, m, r); tol = o.tol_radial_dr(n, m, r)
                bad = ~(np.abs(v - e) <= tol)
                ctx.ok(not bad.any(), "radial_dr equals dR/dr", exact=exact, r=r[bad][:3], got=np.asarray(v)[bad][:3], want=e[bad][:3])
            for i in (rng.choice(r.size, ctx.scale(3, 8), replace=False) if n <= 44 else ()):
                ri = float(r[i])
                for exact in ((False, True) if n <= 38 else (False,)):
                    v = z.radial_dr(ri, use_exact_eq=exact); e = float(o.radial_dr_exact(n, m, ri))
                    ctx.ok(abs(v - e) <= o.tol_radial_dr(n, m, ri), "radial_dr of a scalar equals the exact rational value", exact=exact,
                           r=ri, got=v, want=e)


def derivatives(ctx):
    ctx.extra["oracle_selfcheck"] = o.selfcheck(ctx.rng("oracle"), ctx.scale(60, 400))
    rng = ctx.rng("slow")
    items = []
    for n in range(54, -1, -1):
        ms = list(range(-n, n + 1, 2))
        if n <= ctx.scale(44, 46):
            items.append((n, ms, "all"))
        else:
            items.append((n, [m for m in ms if abs(m) >= n - ctx.scale(8, 12)], "high"))
            if n <= ctx.scale(49, 50):
                low = [m for m in ms if abs(m) < n - 12]
                items += [(n, [int(m)], f"low{m}") for m in rng.choice(low, ctx.scale(1, 6), replace=False)]
    ctx.pmap(one_order, items)


def angular(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("angular")
    base = np.concatenate([np.arange(9)*np.pi/4, np.arange(1, 12)*np.pi/6])
    for m, n in o.all_orders():
        z = ZernPol(m=m, n=n)
        t = np.concatenate([base, rng.uniform(0, 2*np.pi, 12)]); t = t[t <= 2*np.pi]
        ctx.case((m, n, "angular"), theta=t[-5:])
        with ctx.guard():
            tol = 8*o.EPS*(2 + 2*np.pi*abs(m))
            for name, e, f in (("triangular", o.triangular(m, t), 1.0), ("triangular_dtheta", o.triangular_dtheta(m, t), max(1, abs(m)))):
                v = getattr(z, name)(t)
                bad = ~(np.abs(v - e) <= tol*f)
                ctx.ok(not bad.any(), f"{name} equals its definition", theta=t[bad][:3], got=np.asarray(v)[bad][:3], want=e[bad][:3])
                i = int(rng.integers(t.size)); s = getattr(z, name)(float(t[i]))
                ctx.ok(abs(s - e[i]) <= tol*f, f"{name} of a scalar equals its definition", theta=t[i], got=s, want=e[i])
            ctx.ok(abs(z.normf() - o.normf(n, m)) <= 4*o.EPS*o.normf(n, m), "normf equals sqrt(n+1) or sqrt(2(n+1))", got=z.normf())


def difference_quotient(ctx):
    """Relation of the methods among themselves: central differences of the values match the derivatives."""
    from zernpy import ZernPol
    rng = ctx.rng("diff")
    for _ in range(ctx.scale(150, 1500)):
        n = int(rng.integers(0, 21)); m = int(rng.choice(np.arange(-n, n + 1, 2))); z = ZernPol(m=m, n=n)
        r = float(rng.uniform(0.02, 0.98)); t = float(rng.uniform(0.1, 6.1)); h = 1e-5
        ctx.case((m, n, r, t))
        with ctx.guard():
            d = (z.radial(r + h) - z.radial(r - h))/(2*h); v = z.radial_dr(r)
            ctx.ok(abs(d - v) <= 1e-6*(n + 1)**4 + float(o.tol_radial(n, m, r + h))/h, "radial_dr matches the difference quotient of radial", got=v, want=d)
            d = (z.triangular(t + h) - z.triangular(t - h))/(2*h); v = z.triangular_dtheta(t)
            ctx.ok(abs(d - v) <= 1e-8*(abs(m) + 1)**3, "triangular_dtheta matches the difference quotient of triangular", got=v, want=d)


def beyond_limit(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("limit")
    for n in range(39, 55):
        for m in sorted({int(x) for x in rng.choice(np.arange(-n, n + 1, 2), 4)} | {n, -n}):
            z = ZernPol(m=m, n=n)
            for r in (0.3, rng.random(5), rng.random((2, 3))):
                ctx.case((m, n, np.shape(r)), exact=True)
                with warnings.catch_warnings(record=True) as w, ctx.guard():
                    warnings.simplefilter("always")
                    v = z.radial_dr(r, use_exact_eq=True)
                    ctx.ok(np.shape(v) == np.shape(r) and np.all(v == 0.0), "exact form above the limit gives zeros of the shape of r", got=v)
                    ctx.ok(len(w) >= 1, "exact form above the limit warns", warnings=len(w))


LARGE = [(1000,), (1001,), (1024,), (4096,), (4097,), (5000,), (10007,), (16385,), (32769,), (65537,), (100003,), (200, 300), (257, 256), (61, 999), (40, 50, 30)]


def large_of(ctx, item):
    m, n = item
    from zernpy import ZernPol
    rng = ctx.rng("large", m, n)
    for j in rng.choice(len(LARGE), ctx.scale(2, len(LARGE)), replace=False):
        shape = LARGE[int(j)]
        r = rng.random(shape); t = rng.uniform(0, 2*np.pi, shape)
        kind = int(rng.integers(0, 4))
        if kind == 0:
            r = np.sort(r, axis=-1); t = np.sort(t, axis=-1)
        elif kind == 1:
            r = np.round(r, 2); t = np.round(t, 1)  # repeated values
        elif kind == 2:
            r = r.T; t = t.T
        z = ZernPol(m=m, n=n); ctx.case((m, n, "large", shape, kind), shape=np.shape(r))
        at = 16*o.EPS*(2 + 2*np.pi*abs(m))
        with ctx.guard():
            calls = [("radial_dr", lambda: z.radial_dr(r), o.radial_dr(n, m, r), 2*o.tol_radial_dr(n, m, r)),
                     ("triangular", lambda: z.triangular(t), o.triangular(m, t), at),
                     ("triangular_dtheta", lambda: z.triangular_dtheta(t), o.triangular_dtheta(m, t), at*max(1, abs(m)))]
            if n <= 38:
                calls.append(("radial_dr (exact)", lambda: z.radial_dr(r, use_exact_eq=True), calls[0][2], calls[0][3]))
            for name, f, e, tol in calls:
                v = f()
                if not ctx.ok(np.shape(v) == np.shape(r), f"{name} of a large array has its shape", got=np.shape(v), want=np.shape(r)):
                    continue
                bad = ~(np.abs(v - e) <= tol)
                ctx.ok(not bad.any(), f"{name} equals its definition in each element of a large array", count=int(bad.sum()),
                       index=np.argwhere(bad)[:3].tolist(), r=r[bad][:3], theta=t[bad][:3], got=v[bad][:3], want=e[bad][:3])
                ctx.event("elements of large arrays compared", int(r.size))


def large(ctx):
    rng = ctx.rng("large choice")
    items = [(m, n) for n in range(0, 16) for m in range(-n, n + 1, 2)]
    items += [(int(m), n) for n in range(16, 41) for m in rng.choice(np.arange(-n, n + 1, 2), ctx.scale(2, 8), replace=False)]
    ctx.pmap(large_of, items)


HUGE = [(131073,), (200001,), (262144,), (262145,), (300007,), (524289,), (1000003,), (1048577,), (601, 707), (1001, 1003), (2, 3, 70001), (400001, 1), (1, 250007)]


def huge_of(ctx, item):
    """Arrays of millions of elements, with sizes next to (multiples of) powers of two, even and odd; each element against the definition."""
    m, n = item
    from zernpy import ZernPol
    rng = ctx.rng("huge", m, n)
    for j in rng.choice(len(HUGE), ctx.scale(2, 6), replace=False):
        shape = HUGE[int(j)]
        if rng.random() < 0.3:
            shape = (int(rng.integers(100000, 900000)),)
        r = rng.random(shape); t = rng.uniform(0, 2*np.pi, shape)
        z = ZernPol(m=m, n=n); ctx.case((m, n, "huge", shape), shape=shape)
        at = 16*o.EPS*(2 + 2*np.pi*abs(m))
        with ctx.guard():
            for name, f, e, tol in (("radial_dr", lambda: z.radial_dr(r), lambda: o.radial_dr(n, m, r), lambda: 2*o.tol_radial_dr(n, m, r)),
                                    ("triangular", lambda: z.triangular(t), lambda: o.triangular(m, t), lambda: at),
                                    ("triangular_dtheta", lambda: z.triangular_dtheta(t), lambda: o.triangular_dtheta(m, t), lambda: at*max(1, abs(m)))):
                v = f(); e = e(); tol = tol()
                if not ctx.ok(np.shape(v) == shape, f"{name} of a large array has its shape", got=np.shape(v), want=shape):
                    continue
                bad = ~(np.abs(v - e) <= tol)
                ctx.ok(not bad.any(), f"{name} equals its definition in each element of a large array", count=int(bad.sum()),
                       index=np.argwhere(bad)[:3].tolist(), r=r[bad][:3], theta=t[bad][:3], got=v[bad][:3], want=e[bad][:3])
                ctx.event("elements of huge arrays compared", int(r.size))


def huge(ctx):
    rng = ctx.rng("huge choice")
    items = [(int(m), n) for n in range(0, 41, ctx.scale(3, 1)) for m in rng.choice(np.arange(-n, n + 1, 2), 1 if n > 14 else min(n + 1, 2), replace=False)]
    ctx.pmap(huge_of, items, workers=6)


def monitored(ctx):
    mon = monitors.CallMonitor(ctx, values=("radial_dr", "triangular", "triangular_dtheta"))
    monitors.run_workloads(ctx, mon, ctx.scale(3, 25))


SECTIONS = [("derivatives", derivatives), ("angular", angular), ("difference quotients", difference_quotient), ("limit", beyond_limit),
            ("large arrays", large), ("huge arrays", huge), ("monitored programs", monitored)]
