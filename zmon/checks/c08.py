"""C08: sums of polynomials, surfaces and coordinate generators."""
import numpy as np
from .. import oracle as o
from .. import monitors

LEVEL = "exploration"
RULE = ("A case is one set of coefficients and polynomials with its coordinates, or one pair of steps / number of points of the coordinate "
        "generators. A sum is non-trivial if it has at least two non-zero terms; distinct by terms, sizes and form.")
ASSUMPTIONS = ["Sums may differ from the oracle sum by the accuracy bounds of the terms.",
               "The last point may repeat the end of the range or miss it by rounding (1e-12), as the step generation is in floating point."]
TWO_PI = 2*np.pi


def terms(rng, top, count):
    orders = [x for x in o.all_orders(top)]
    if rng.random() < 0.3:
        orders = [x for x in orders if x[1] >= 10] or orders
    idx = rng.choice(len(orders), min(count, len(orders)), replace=rng.random() < 0.2)
    cs = rng.choice([1.0, 0.1, 5.0], len(idx))*rng.uniform(-1, 1, len(idx))
    cs[rng.random(len(idx)) < 0.2] = 0.0
    if rng.random() < 0.15:
        cs[0] = 0.0
    if rng.random() < 0.1:
        cs = np.round(cs*3)  # integers
    if rng.random() < 0.1:
        cs *= 1e-9
    if rng.random() < 0.15 and len(idx) > 1:   # one polynomial given twice, next to itself or not, with another coefficient
        a, b = (int(x) for x in rng.choice(len(idx), 2, replace=False)) if rng.random() < 0.3 else ((lambda q: (q, q + 1))(int(rng.integers(len(idx) - 1))))
        idx[b] = idx[a]; cs[a] = rng.uniform(0.2, 1) if cs[a] == 0 else cs[a]; cs[b] = -0.7*cs[a] if rng.random() < 0.7 else cs[a]
    return [orders[i] for i in idx], cs


def oracle_sum(orders, cs, r, t):
    want = np.zeros(np.broadcast_shapes(np.shape(r), np.shape(t))); tol = want + 1e-300
    for (m, n), c in zip(orders, cs):
        if c == 0:
            continue
        want = want + c*o.zernike(m, n, r, t)
        tol = tol + abs(c)*o.tol_zernike(n, m, r, t) + 4*o.EPS*abs(c)*o.normf(n, m)
    return want, tol*1.5


def objects(rng, orders):
    """Polynomials of the orders; repeated orders are one and the same object most of the times."""
    from zernpy import ZernPol
    pool = {}; shared = rng.random() < 0.7
    return [pool.setdefault(x, ZernPol(m=x[0], n=x[1])) if shared else ZernPol(m=x[0], n=x[1]) for x in orders]


def container(rng, cs, pols):
    k = int(rng.integers(0, 5))
    c = [list(cs), tuple(cs), np.asarray(cs, float), [float(x) for x in cs], [int(x) if x == int(x) else float(x) for x in cs]][k]
    return c, (pols if rng.random() < 0.5 else tuple(pols))


def judge(ctx, got, want, tol, rule, **d):
    if not ctx.ok(np.shape(got) == np.shape(want), rule + " (shape)", got=np.shape(got), want=np.shape(want), **d):
        return False
    bad = ~(np.abs(np.asarray(got, float) - want) <= tol)
    return ctx.ok(not np.any(bad), rule, index=np.argwhere(bad)[:3].tolist(), got=np.asarray(got)[bad][:3], want=np.asarray(want)[bad][:3], **d)


def sums_of(ctx, item):
    label, count, top = item
    from zernpy import ZernPol
    rng = ctx.rng("sums", label)
    for k in range(count):
        orders, cs = terms(rng, top, int(rng.integers(1, 9)) if rng.random() < 0.9 else 45)
        pols = objects(rng, orders)
        c, ps = container(rng, cs, pols)
        size = int(rng.integers(1, 30))
        kind = int(rng.integers(0, 6))
        r = rng.random(size); t = rng.uniform(0, TWO_PI, size)
        if kind == 0:
            r, t = float(r[0]), float(t[0])
        elif kind == 1:
            r = float(r[0])
        elif kind == 2:
            t = float(t[0])
        elif kind == 3:
            r, t = rng.random((3, 5)), rng.uniform(0, TWO_PI, (3, 5))
        elif kind == 4:
            r, t = r.tolist(), t.tolist()
        nz = int(np.count_nonzero(cs))
        ctx.case((orders, cs.tolist(), kind, np.shape(r)), nontrivial=nz > 1, terms=orders, coefficients=cs)
        with ctx.guard("valid sum is computed"):
            got = ZernPol.sum_zernikes(c, ps, r, t)
            want, tol = oracle_sum(orders, cs, np.asarray(r), np.asarray(t))
            judge(ctx, got, want, tol, "sum equals the weighted sum of the values", terms=orders, coefficients=cs, kind=kind)
            perm = rng.permutation(len(cs))
            got = ZernPol.sum_zernikes([c[i] for i in perm], [ps[i] for i in perm], r, t)
            judge(ctx, got, want, tol, "sum does not depend on the order of the terms", terms=orders, coefficients=cs, order=perm)
            extra = ZernPol(osa=int(rng.integers(0, 60))); at = int(rng.integers(0, len(cs) + 1)); c2 = list(c); p2 = list(ps)
            c2.insert(at, 0.0); p2.insert(at, extra)
            judge(ctx, ZernPol.sum_zernikes(c2, p2, r, t), want, tol, "a zero coefficient contributes nothing", terms=orders, at=at)
            judge(ctx, ZernPol.sum_zernikes([-2.0*x for x in c], ps, r, t), -2.0*want, 2*tol, "sum is linear in the coefficients", terms=orders)
        # surface for vectors of any lengths
        nr, nt = [(1, 1), (1, 7), (7, 1), (5, 5), (4, 9), (9, 4), (2, 2), (1, 2), (2, 1), (20, 21), (21, 20), (3, 40), (40, 3)][int(rng.integers(13))]
        r = rng.random(nr); t = rng.uniform(0, TWO_PI, nt)
        if rng.random() < 0.3:
            r = np.linspace(0, 1, nr); t = np.linspace(0, TWO_PI, nt)
        ctx.case((orders, cs.tolist(), "surface", nr, nt), nontrivial=nz > 1, terms=orders, coefficients=cs)
        with ctx.guard("valid surface is computed"):
            want, tol = oracle_sum(orders, cs, r[:, None], t[None, :])
            keep = r.copy(), t.copy()
            got = ZernPol.sum_zernikes(c, ps, r, t, get_surface=True)
            judge(ctx, got, want, tol, "surface S[i, j] equals the sum at (r_i, theta_j)", terms=orders, coefficients=cs)
            got = ZernPol.sum_zernikes([c[i] for i in perm], [ps[i] for i in perm], r, t, get_surface=True)
            judge(ctx, got, want, tol, "surface does not depend on the order of the terms", terms=orders, order=perm)
            judge(ctx, ZernPol.sum_zernikes(c2, p2, r, t, get_surface=True), want, tol, "a zero coefficient contributes nothing to the surface", at=at)
            ctx.ok(np.array_equal(keep[0], r) and np.array_equal(keep[1], t), "coordinates are not modified")


def sums(ctx):
    n = ctx.scale(200, 2500)
    ctx.pmap(sums_of, [(i, n, [6, 10, 14, 20, 30, 38, 42, 25][i]) for i in range(8)])


def kinds_of(ctx, item):
    """Coefficients of all number types and containers; the values of the sum are of double precision in each of them."""
    label, count = item
    from zernpy import ZernPol
    rng = ctx.rng("kinds", label)
    for k in range(count):
        orders, cs = terms(rng, [6, 12, 20][k % 3], int(rng.integers(1, 9)))
        kind = ["float32", "float16", "int64", "int8", "uint8", "bool", "float64", "list of numpy", "strided", "read-only", "range", "fractions of ints", "longdouble"][int(rng.integers(13))]
        if kind in ("int64", "int8", "uint8", "bool", "range"):
            cs = rng.integers(0, 2 if kind == "bool" else 5, len(orders)) if kind != "range" else np.arange(len(orders))
            if kind in ("int64", "int8"):
                cs = cs - 2
        if kind in ("float32", "float16"):
            cs = np.asarray(cs, kind)
        c = {"list of numpy": lambda: [np.float64(x) for x in cs], "strided": lambda: np.repeat(np.asarray(cs, float), 2)[::2], "range": lambda: list(range(len(orders))),
             "fractions of ints": lambda: [int(2*x) for x in cs]}.get(kind, lambda: np.asarray(cs, kind if kind not in ("read-only",) else float))()
        if kind == "read-only":
            c.flags.writeable = False
        form = int(rng.integers(3)) if kind not in ("strided", "read-only") else 0
        c = [c, list(c), tuple(c)][form]; keep = [repr(x) for x in c]
        exact = np.array([float(x) for x in c])
        pols = objects(rng, orders); ps = [pols, tuple(pols)][int(rng.integers(2))]
        nr, nt = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        ctx.case((orders, kind, form, nr, nt), nontrivial=int(np.count_nonzero(exact)) > 1, terms=orders, coefficients=exact, kind=kind)
        with ctx.guard("valid sum is computed"):
            for ints in (False, True):   # integer and single precision coordinates as well
                r = rng.random(nr) if not ints else rng.integers(0, 2, nr); t = rng.uniform(0, TWO_PI, nt) if not ints else rng.integers(0, 7, nt)
                want, tol = oracle_sum(orders, exact, r[:, None].astype(float), t[None, :].astype(float))
                got = ZernPol.sum_zernikes(c, ps, r, t, get_surface=True)
                judge(ctx, got, want, tol, "surface equals the sum for coefficients of all types", kind=kind, form=form, terms=orders, integers=ints)
                ctx.ok(np.asarray(got).dtype == np.float64 or kind == "longdouble", "surface is of double precision", kind=kind, form=form, dtype=str(np.asarray(got).dtype))
                q = min(nr, nt); want, tol = oracle_sum(orders, exact, r[:q].astype(float), t[:q].astype(float))
                judge(ctx, ZernPol.sum_zernikes(c, ps, r[:q], t[:q]), want, tol, "sum equals the weighted sum for coefficients of all types", kind=kind, form=form, terms=orders, integers=ints)
                want, tol = oracle_sum(orders, exact, np.asarray(float(r[0])), np.asarray(float(t[0])))
                judge(ctx, ZernPol.sum_zernikes(c, ps, float(r[0]), float(t[0])), want, tol, "sum of scalars equals the weighted sum for coefficients of all types", kind=kind, form=form, terms=orders)
            s = ZernPol.gen_zernikes_surface(c, ps, r_step=0.25, theta_rad_step=1.0)
            want, tol = oracle_sum(orders, exact, s.R[:, None], s.Theta[None, :])
            judge(ctx, s.ZernSurf, want, tol, "generated surface equals the sum for coefficients of all types", kind=kind, form=form, terms=orders)
            ctx.ok([repr(x) for x in c] == keep, "coefficients are not modified", kind=kind)
            ctx.event("coefficients: " + kind)


def kinds(ctx):
    ctx.pmap(kinds_of, [(i, ctx.scale(60, 900)) for i in range(8)])


def large_of(ctx, item):
    """Large surfaces, long vectors and many terms."""
    k, (nr, nt) = item
    from zernpy import ZernPol
    rng = ctx.rng("large", k, nr, nt)
    table = list(o.osa_table(int(rng.choice([8, 12, 16, 22]))))
    count = int(rng.integers(3, 12)) if k % 3 else int(rng.integers(40, 120))
    idx = rng.permutation(len(table))[:count]
    orders = [table[i] for i in idx]; cs = rng.uniform(-1, 1, len(orders)); cs[rng.random(len(cs)) < 0.1] = 0.0
    pols = objects(rng, orders); c, ps = container(rng, cs, pols)
    r = rng.random(nr); t = rng.uniform(0, TWO_PI, nt)
    if rng.random() < 0.5:
        r = np.sort(r); t = np.sort(t)
    ctx.case(("large surface", nr, nt, orders), terms=len(orders))
    with ctx.guard("large surface is computed"):
        want, tol = oracle_sum(orders, cs, r[:, None], t[None, :])
        judge(ctx, ZernPol.sum_zernikes(c, ps, r, t, get_surface=True), want, 2*tol, "large surface S[i, j] equals the sum at (r_i, theta_j)", count=len(orders))
        ctx.event("elements of large sums compared", nr*nt)
    size = int(rng.choice([999, 1000, 1024, 4097, 10001, 20000])) if count < 20 else 1500
    r = rng.random(size); t = rng.uniform(0, TWO_PI, size)
    if k % 2:
        r = r[:size//4*4].reshape(4, -1); t = t[:size//4*4].reshape(4, -1)
    ctx.case(("large sum", np.shape(r), orders), terms=len(orders))
    with ctx.guard("large sum is computed"):
        want, tol = oracle_sum(orders, cs, r, t)
        judge(ctx, ZernPol.sum_zernikes(c, ps, r, t), want, 2*tol, "sum of long vectors equals the weighted sum of the values", count=len(orders))
        ctx.event("elements of large sums compared", size)


def large(ctx):
    rng = ctx.rng("large sizes")
    dims = [(128, 128), (100, 257), (257, 100), (300, 300), (500, 70), (70, 500), (1001, 33), (33, 1001), (2, 3000), (3000, 2), (512, 513), (1, 5000), (5000, 1)]
    dims += [(int(rng.integers(60, 400)), int(rng.integers(60, 400))) for _ in range(ctx.scale(5, 40))]
    ctx.pmap(large_of, list(enumerate(dims)))


def check_vectors(ctx, R, T, r_step, t_step):
    for name, v, end, step in (("radii", R, 1.0, r_step), ("angles", T, TWO_PI, t_step)):
        v = np.asarray(v)
        if not ctx.ok(v.ndim == 1 and v.size >= 2, f"generated {name} are a vector", shape=v.shape):
            continue
        ctx.ok(v[0] == 0.0, f"generated {name} start at 0", got=v[0], step=step)
        ctx.ok(abs(v[-1] - end) <= 1e-12, f"generated {name} end at the end of the range", got=v[-1], step=step)
        ctx.ok(v.min() >= 0.0 and v.max() <= end, f"generated {name} never leave the range", got=[v.min(), v.max()], step=step)
        d = np.diff(v)
        ctx.ok(np.all(d >= 0), f"generated {name} do not decrease", step=step, smallest=d.min())
        k = np.arange(v.size)
        inner = k*step < end*(1 - 1e-12)
        want = np.where(inner, k*step, end)
        ctx.ok(np.all(np.abs(v - want) <= 1e-12), f"generated {name} have the requested step", step=step, worst=np.max(np.abs(v - want)))
        ctx.ok(d.max() <= step*(1 + 1e-9), f"no gap between generated {name} exceeds the step", step=step, largest=d.max())


def coordinates(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("steps")
    rs = [0.5, 0.25, 0.1, 0.01, 0.3, 0.4, 0.45, 1/3, 0.49999] + [1/k for k in range(2, 60)] + [round(x, int(k)) for x, k in
          zip(rng.uniform(0.004, 0.5, 200), rng.integers(2, 8, 200))] + rng.uniform(0.003, 0.5, ctx.scale(400, 4000)).tolist()
    ts = [np.pi, np.pi/2, 1.0, 3.0, round(np.pi/240, 7), round(np.pi/180, 7)] + [np.pi/k for k in range(1, 120)] + [TWO_PI/k for k in range(2, 120)] + [
          round(x, int(k)) for x, k in zip(rng.uniform(0.02, 3.14, 200), rng.integers(2, 8, 200))] + rng.uniform(0.01, np.pi, ctx.scale(400, 4000)).tolist()
    rng.shuffle(rs); rng.shuffle(ts)
    for i in range(max(len(rs), len(ts))):
        a, b = rs[i % len(rs)], ts[i % len(ts)]
        if not 0 < a <= 0.5 or not 0 < b <= np.pi:
            continue
        ctx.case(("steps", a, b))
        with ctx.guard("coordinates are generated"):
            v = ZernPol.gen_polar_coordinates(a, b) if i % 2 else ZernPol.gen_polar_coordinates(r_step=a, theta_rad_step=b)
            check_vectors(ctx, v.R, v.Theta, a, b)
    ctx.case("default steps")
    with ctx.guard():
        v = ZernPol.gen_polar_coordinates(); check_vectors(ctx, v.R, v.Theta, 0.01, round(np.pi/240, 7))
    for i in range(ctx.scale(60, 600)):  # steps and numbers of points of other number types mean the same
        kind = [np.float32, np.float16, np.float64, np.longdouble][i % 4]
        a, b = kind(rs[i]*0.999), kind(ts[i]*0.999); n = [np.uint8, np.int8, np.int16, np.uint16, np.int64][i % 5](rng.integers(2, 120))
        if not 0 < float(a) <= 0.5 or not 0.01 < float(b) <= np.pi:
            continue
        ctx.case(("types of steps", kind.__name__, float(a), float(b)), steps=[float(a), float(b)], type=kind.__name__)
        with ctx.guard("coordinates are generated"):
            v = ZernPol.gen_polar_coordinates(a, b) if i % 2 else ZernPol.gen_polar_coordinates(r_step=a, theta_rad_step=b)
            check_vectors(ctx, v.R, v.Theta, float(a), float(b))
            w = ZernPol.gen_polar_coordinates(float(a), float(b))
            ctx.ok(np.array_equal(v.R, w.R) and np.array_equal(v.Theta, w.Theta), "the type of the steps doesn't change the coordinates", type=kind.__name__)
            v = ZernPol.gen_equal_polar_mesh(n); w = ZernPol.gen_equal_polar_mesh(int(n))
            ctx.ok(np.array_equal(v.R, w.R) and np.array_equal(v.Theta, w.Theta), "the type of the number of points doesn't change the coordinates", n=int(n), type=type(n).__name__)
            if i < 12:
                pol = ZernPol(m=-1, n=3); x = ZernPol.gen_zernikes_surface([0.5], [pol], r_step=a, theta_rad_step=b)
                y = ZernPol.gen_zernikes_surface([0.5], [pol], r_step=float(a), theta_rad_step=float(b))
                ctx.ok(all(np.array_equal(p, q) for p, q in zip(x, y)), "the type of the steps doesn't change the surface", type=kind.__name__)
        ctx.event("steps of type " + kind.__name__)
    for n in list(range(-2, 60)) + [250, 333, 1000]:
        ctx.case(("points", n))
        with ctx.guard("coordinates are generated"):
            v = ZernPol.gen_equal_polar_mesh(n_points=n); k = max(n, 4)
            ctx.ok(np.shape(v.R) == (k,) and np.shape(v.Theta) == (k,), "mesh has the requested number of points (at least 4)", n=n,
                   got=[np.shape(v.R), np.shape(v.Theta)])
            ctx.ok(np.allclose(v.R, np.arange(k)/(k - 1), rtol=0, atol=1e-13) and v.R[-1] == 1.0 and v.R.max() <= 1, "mesh radii are equidistant from 0 to 1", n=n)
            ctx.ok(np.allclose(v.Theta, TWO_PI*np.arange(k)/(k - 1), rtol=0, atol=1e-12) and v.Theta.max() <= TWO_PI, "mesh angles are equidistant from 0 to 2pi", n=n)
    with ctx.guard():
        v = ZernPol.gen_equal_polar_mesh(); ctx.ok(v.R.shape == (250,), "default mesh has 250 points")


def surfaces(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("surfaces")
    for k in range(ctx.scale(40, 300)):
        orders, cs = terms(rng, [8, 12, 24][k % 3], int(rng.integers(1, 6)))
        c, ps = container(rng, cs, [ZernPol(m=m, n=n) for m, n in orders])
        a, b, n = float(rng.uniform(0.02, 0.5)), float(rng.uniform(0.05, np.pi)), int(rng.integers(2, 60))
        ctx.case((orders, cs.tolist(), a, b, n, k % 4), terms=orders, coefficients=cs)
        with ctx.guard("surface is generated"):
            if k % 4 == 0:
                s = ZernPol.gen_zernikes_surface(c, ps, equal_n_coordinates=True, n_points=n); v = ZernPol.gen_equal_polar_mesh(n)
            elif k % 4 == 1 and k < 10:
                s = ZernPol.gen_zernikes_surface(c, ps); check_vectors(ctx, s.R, s.Theta, 0.01, round(np.pi/180, 7)); v = s
            else:
                s = ZernPol.gen_zernikes_surface(c, ps, r_step=a, theta_rad_step=b); check_vectors(ctx, s.R, s.Theta, a, b)
                v = ZernPol.gen_polar_coordinates(a, b)
            ctx.ok(np.array_equal(s.R, v.R) and np.array_equal(s.Theta, v.Theta), "surface coordinates are those of the generators", k=k)
            ctx.ok(tuple(s)[0] is s.ZernSurf and len(s) == 3, "surface is the documented tuple")
            want, tol = oracle_sum(orders, cs, s.R[:, None], s.Theta[None, :])
            judge(ctx, s.ZernSurf, want, tol, "generated surface equals the sum on its coordinates", terms=orders, coefficients=cs)


def monitored(ctx):
    """Every sum made by other parts of the library (fitting workloads, plots, images) is judged online."""
    from zernpy import ZernPol
    orig = ZernPol.__dict__["sum_zernikes"].__func__
    rng = ctx.rng("monitored sums")

    def observed(coefficients, polynomials, r, theta, get_surface=False):
        res = orig(coefficients, polynomials, r, theta, get_surface)
        ctx.event("sum_zernikes called")
        orders = [p.get_mn_orders() for p in polynomials]
        surf = get_surface and isinstance(r, np.ndarray) and isinstance(theta, np.ndarray)
        ra, ta = (np.asarray(r)[:, None], np.asarray(theta)[None, :]) if surf else (np.asarray(r), np.asarray(theta))
        want, tol = oracle_sum(orders, list(coefficients), ra, ta)
        judge(ctx, res, want, tol, "monitored sum equals the weighted sum", terms=orders)
        return res
    ZernPol.sum_zernikes = staticmethod(observed)
    try:
        import random
        for i in range(ctx.scale(2, 12)):
            for w in monitors.WORKLOADS[:2]:
                ctx.case((w.__name__, i)); random.seed(int(rng.integers(2**31)))
                with ctx.guard():
                    w(rng)
    finally:
        ZernPol.sum_zernikes = staticmethod(orig)


SECTIONS = [("sums", sums), ("kinds of coefficients", kinds), ("large sums", large), ("coordinates", coordinates), ("surfaces", surfaces), ("monitored programs", monitored)]
