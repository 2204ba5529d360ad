"""C07: input kinds, shapes and layouts give elementwise the values of the scalars."""
import warnings
import numpy as np
from .. import oracle as o
from .. import monitors

LEVEL = "exploration"
RULE = ("A case is one polynomial, method, mode and input kind (scalar type, list, tuple, array with its shape, layout and dtype). It is "
        "non-trivial if at least two elements were compared or a scalar was returned; distinct by (m, n), method, mode and kind.")
ASSUMPTIONS = ["Elements may differ from the scalar evaluation by the accuracy bound of C01/C02 (vector and scalar arithmetic round differently).",
               "0-dimensional and empty arrays, sets, extended precision, boolean, complex and object arrays are not judged."]
TWO_PI = 2*np.pi


# ---------------------------------------------------------------- layouts: the same values in a different form
def layouts(rng, v):
    """(kind, form, flat order of values) for a vector of 12 values."""
    a = np.asarray(v)
    sq = a.reshape(3, 4)
    big = np.zeros(24, a.dtype); big[::2] = a
    wide = np.zeros((3, 8), a.dtype); wide[:, 1::2] = sq
    ro = a.copy(); ro.flags.writeable = False
    yield "list", a.tolist()
    yield "tuple", tuple(a.tolist())
    yield "nested list", sq.tolist()
    yield "1D", a.copy()
    yield "1D one element", a[:1].copy()
    yield "1D two elements", a[:2].copy()
    yield "2D", sq.copy()
    yield "2D column", a.reshape(12, 1).copy()
    yield "2D row", a.reshape(1, 12).copy()
    yield "3D", a.reshape(2, 3, 2).copy()
    yield "4D", a.reshape(2, 1, 3, 2).copy()
    yield "Fortran order", np.asfortranarray(sq)
    yield "transposed", sq.T
    yield "strided", big[::2]
    yield "strided 2D", wide[:, 1::2]
    yield "reversed", a[::-1]
    yield "reversed 2D", sq[::-1, ::-1]
    yield "read-only", ro
    yield "broadcast", np.broadcast_to(a[:4], (3, 4))


NARROW = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "uint64", "float16", "float32", ">f8", ">f4"]
SCALARS = [("float", float), ("np.float64", np.float64)]
INTEGER_SCALARS = [("int", int), ("np.int64", np.int64), ("np.int32", np.int32)]


def call(z, method, r, t, exact):
    if method == "polynomial_value":
        return z.polynomial_value(r, t, use_exact_eq=exact) if exact else z.polynomial_value(r, t)
    if method in ("radial", "radial_dr"):
        return getattr(z, method)(r, use_exact_eq=exact) if exact else getattr(z, method)(r)
    return getattr(z, method)(t)


def tol(method, n, m, r, t):
    if method == "polynomial_value":
        return o.tol_zernike(n, m, r, t)
    if method == "radial":
        return o.tol_radial(n, m, r)
    if method == "radial_dr":
        return o.tol_radial_dr(n, m, r)
    return 16*o.EPS*(2 + abs(m)*TWO_PI)*max(abs(m), 1)*np.ones(np.shape(t))


def compare(ctx, z, method, exact, kind, r, t, shape):
    """r, t: forms as given to the library (numpy-convertible)."""
    m, n = z.get_mn_orders()
    ctx.case((m, n, method, exact, kind), shape=shape)
    with ctx.guard("accepted input kind is computed without exception"):
        got = call(z, method, r, t, exact)
        ra = np.broadcast_to(np.asarray(r, float), shape); ta = np.broadcast_to(np.asarray(t, float), shape)
        if not ctx.ok(np.shape(got) == tuple(shape), "result has the common shape of the inputs", method=method, exact=exact, kind=kind,
                      got=np.shape(got), want=shape):
            return
        ctx.ok(np.asarray(got).dtype == np.float64, "result of double precision input is double precision", method=method, kind=kind, dtype=str(np.asarray(got).dtype))
        if shape == ():
            ctx.ok(not isinstance(got, np.ndarray), "scalar inputs give a scalar", method=method, kind=kind, type=type(got).__name__)
        else:
            ctx.ok(isinstance(got, np.ndarray), "array inputs give an array", method=method, kind=kind, type=type(got).__name__)
        g = np.asarray(got)
        rf, tf = ra.ravel(), ta.ravel()
        want = np.array([float(call(z, method, float(a), float(b), exact)) for a, b in zip(rf, tf)]).reshape(shape)
        bad = ~(np.abs(g - want) <= tol(method, n, m, ra, ta))
        ctx.ok(not np.any(bad), "each element equals the value of the pair of scalars", method=method, exact=exact, kind=kind,
               index=np.argwhere(bad)[:3].tolist(), got=g[bad][:3], want=want[bad][:3])


def polynomials(rng, thorough):
    """Orders such that every internal branch (table, recurrence, coefficients) is taken, with all signs of m."""
    low = [(m, n) for n in range(0, 15) for m in range(-n, n + 1, 2)]
    high = [(0, 16), (-2, 18), (17, 19), (-20, 20), (5, 25), (0, 30), (-31, 33), (0, 38), (1, 39), (0, 40), (-40, 40), (41, 41), (0, 42), (-42, 44), (44, 46)]
    if thorough:
        high += [(m, n) for n in range(15, 41) for m in rng.choice(np.arange(-n, n + 1, 2), 4, replace=False).tolist()]
    return low + high


def kinds_for(ctx, item):
    (m, n), few = item
    from zernpy import ZernPol
    rng = ctx.rng("kinds", m, n)
    z = ZernPol(m=m, n=n)
    r = np.concatenate([[0.0, 1.0], rng.random(10)]); t = np.concatenate([[0.0, TWO_PI], rng.uniform(0, TWO_PI, 10)])
    rng.shuffle(r); rng.shuffle(t)
    ri = rng.integers(0, 2, 12); ti = rng.integers(0, 7, 12)
    methods = [("polynomial_value", False), ("radial", False), ("radial_dr", False)]
    if n <= 38:
        methods += [("polynomial_value", True), ("radial", True), ("radial_dr", True)]
    for method, exact in methods:
        forms = list(zip(layouts(rng, r), layouts(rng, t)))
        ints = list(zip(layouts(rng, ri), layouts(rng, ti)))
        if few:
            forms = [forms[i] for i in rng.choice(len(forms), few, replace=False)]; ints = [ints[i] for i in rng.choice(len(ints), max(2, few//3), replace=False)]
        for (kind, fr), (_, ft) in forms:
            compare(ctx, z, method, exact, kind, fr, ft, np.shape(fr))
        for (kind, fr), (_, ft) in ints:
            compare(ctx, z, method, exact, "integer " + kind, fr, ft, np.shape(fr))
        for dt in rng.choice(NARROW, len(NARROW) if not few else 3, replace=False).tolist():
            whole = "int" in dt; (kind, fr), (_, ft) = list(zip(layouts(rng, (ri if whole else r).astype(dt)), layouts(rng, (ti if whole else t).astype(dt))))[int(rng.choice([3, 5, 6, 9, 11, 13, 15]))]
            compare(ctx, z, method, exact, f"{dt} {kind}", fr, ft, np.shape(fr)); ctx.event("calls with other types of numbers")
        for name, f in SCALARS:
            compare(ctx, z, method, exact, name, f(r[0]), f(t[0]), ())
        for name, f in INTEGER_SCALARS:
            compare(ctx, z, method, exact, name, f(rng.integers(0, 2)), f(rng.integers(0, 7)), ())
        if method == "polynomial_value":  # a scalar against an array, mixed types
            for k, ((kind, fr), (_, ft)) in enumerate(forms[::1 if not few else 3]):
                compare(ctx, z, method, exact, "scalar radius, angles " + kind, [float(r[1]), np.float64(r[1]), 1, 0][k % 4], ft, np.shape(ft))
                compare(ctx, z, method, exact, "scalar angle, radii " + kind, fr, [float(t[1]), np.float64(t[1]), 3, 0][k % 4], np.shape(fr))
            compare(ctx, z, method, exact, "array radii, list angles", r.copy(), t.tolist(), (12,))
            compare(ctx, z, method, exact, "tuple radii, strided angles", tuple(r.tolist()), np.repeat(t, 2)[::2], (12,))
            compare(ctx, z, method, exact, "integer radii, float angles", ri, t, (12,))
            compare(ctx, z, method, exact, "float radii, integer angles", r, ti, (12,))


def kinds(ctx):
    pols = polynomials(ctx.rng("polynomials"), ctx.thorough)
    few = None
    ctx.pmap(kinds_for, [(p, few if p[1] <= 14 else (4 if not ctx.thorough else 8)) for p in sorted(pols, key=lambda p: -p[1])])


def structured(rng, top, edges):
    """Arrays with structure which a shortcut for 'the same' rows, planes or values could take for more than it is."""
    u = lambda *s: rng.uniform(0, top, s)  # noqa: E731
    a = np.sort(u(5)); b = np.sort(u(4))
    yield "mesh, values along the rows", np.meshgrid(a, b)[0]
    yield "mesh, values along the columns", np.meshgrid(b, a)[1]
    yield "mesh ij 3D", np.meshgrid(a, b, u(3), indexing="ij")[int(rng.integers(3))]
    for shape in ((3, 4), (4, 3), (3, 2, 3), (3, 3, 2), (2, 3, 2, 2), (3, 1, 2, 2), (12,), (4, 1), (1, 4)):
        x = u(*shape); x[-1] = x[0]
        yield f"first equals last {shape}", x
        x = u(*shape); x[1:2] = x[0:1]
        yield f"first equals second {shape}", x
        x = u(*shape); x[..., -1] = x[..., 0]
        yield f"first column equals last {shape}", x
        x = np.broadcast_to(u(*shape)[:1], shape).copy()
        yield f"all equal along the first axis {shape}", x
        x = np.broadcast_to(u(*shape)[..., :1], shape).copy()
        yield f"all equal along the last axis {shape}", x
        x = np.full(shape, u(1)[0])
        yield f"constant {shape}", x
        x = np.full(shape, u(1)[0]); x.flat[int(rng.integers(x.size))] = u(1)[0]
        yield f"constant but one {shape}", x
        x = np.zeros(shape); x.flat[int(rng.integers(x.size))] = u(1)[0]
        yield f"zeros but one {shape}", x
        x = rng.choice(np.asarray(edges, float), shape)
        yield f"borders {shape}", x
        x = u(*shape); x = (x + x[::-1])/2
        yield f"symmetric {shape}", x
        x = np.sort(u(*shape).ravel()).reshape(shape)
        yield f"ascending {shape}", x
        yield f"descending {shape}", x[::-1].copy() if x.ndim == 1 else x.ravel()[::-1].reshape(shape).copy()
        x = rng.choice(u(3), shape)
        yield f"of three values {shape}", x


def patterns_for(ctx, item):
    (m, n), few = item
    from zernpy import ZernPol
    rng = ctx.rng("patterns", m, n)
    z = ZernPol(m=m, n=n)
    methods = [("polynomial_value", False), ("radial", False), ("radial_dr", False)] + ([("polynomial_value", True), ("radial", True), ("radial_dr", True)] if n <= 38 else [])
    forms = [(k, a) for k, a in structured(rng, 1.0, (0, 1, 0.5))]; turns = [(k, a) for k, a in structured(rng, TWO_PI, (0, np.pi, TWO_PI, np.pi/2))]
    for method, exact in methods:
        for i in rng.choice(len(forms), few, replace=False):
            kind, r = forms[int(i)]
            for t in (rng.uniform(0, TWO_PI, r.shape), turns[int(i)][1]) if method == "polynomial_value" else (0.0,):
                compare(ctx, z, method, exact, "pattern " + kind, r, t, r.shape); ctx.event("structured arrays")
            if method == "polynomial_value":
                compare(ctx, z, method, exact, "angles of pattern " + kind, rng.random(r.shape), turns[int(i)][1], r.shape)
    for i in rng.choice(len(turns), max(4, few//3), replace=False):
        kind, t = turns[int(i)]
        for method in ("triangular", "triangular_dtheta"):
            compare(ctx, z, method, False, "pattern " + kind, 0.5, t, t.shape); ctx.event("structured arrays")


def patterns(ctx):
    rng = ctx.rng("patterns choice")
    items = [(m, n) for m, n in polynomials(ctx.rng("polynomials"), ctx.thorough) if n <= 6 or n > 12 or rng.random() < 0.3]
    few = ctx.scale(12, 40)
    ctx.pmap(patterns_for, [(p, few if p[1] <= 25 else few//3) for p in sorted(items, key=lambda p: -p[1])])


def angles(ctx):
    """Angular methods for every m: kinds, and angles out of the period (warning, equivalent value)."""
    from zernpy import ZernPol
    rng = ctx.rng("angles")
    for n in range(0, 55):
        for m in ({n, -n, n % 2, -(n % 2)} if n > 12 else range(-n, n + 1, 2)):
            z = ZernPol(m=m, n=n)
            t = np.concatenate([[0.0, TWO_PI], rng.uniform(0, TWO_PI, 10)]); ti = rng.integers(0, 7, 12)
            for method in ("triangular", "triangular_dtheta"):
                forms = list(layouts(rng, t))
                forms = [forms[i] for i in rng.choice(len(forms), 5, replace=False)]
                for kind, ft in forms:
                    compare(ctx, z, method, False, kind, 0.5, ft, np.shape(ft))
                ints = list(layouts(rng, ti)); kind, ft = ints[int(rng.integers(len(ints)))]
                compare(ctx, z, method, False, "integer " + kind, 0.5, ft, np.shape(ft))
                for name, f in SCALARS:
                    compare(ctx, z, method, False, name, 0.5, f(t[3]), ())
                for name, f in INTEGER_SCALARS:
                    compare(ctx, z, method, False, name, 0.5, f(rng.integers(0, 7)), ())


OUT = ([-0.5], [7.0], [-7.0], [13.0], [-1e-9], [TWO_PI + 1e-6], [1.0, 8.0], [-1.0, 1.0], [-4.0, 4.0], [0.0, 100.0], [-3.0, -2.0, -1.0],
       [6.2, 6.3], [7.0, 7.5, 8.0], [-20.0, 20.0], [7], [-1], [1, 8], [-3, 2], [0, 100])
FORMS = (("array", np.asarray), ("list", list), ("tuple", tuple), ("column", lambda a: np.asarray(a)[:, None]), ("nested list", lambda a: [list(a), list(a)]),
         ("nested tuple", lambda a: tuple((x,) for x in a)), ("fortran", lambda a: np.asfortranarray([a, a[::-1]])),
         ("strided", lambda a: np.repeat(np.asarray(a), 2)[::2]), ("scalar", lambda a: a[-1] if not 0 <= a[-1] <= TWO_PI else a[0]))


def outside(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("outside")
    pols = [(m, n) for n in range(0, 15) for m in range(-n, n + 1, 2)]
    for m, n in pols:
        z = ZernPol(m=m, n=n)
        for k in rng.choice(len(OUT), ctx.scale(4, len(OUT)), replace=False):
            for form, make in FORMS:
                a = OUT[int(k)]; t = make(a)
                if np.ndim(t) == 0 and 0 <= t <= TWO_PI:
                    continue
                inside = np.mod(t, TWO_PI)
                for method in ("polynomial_value", "triangular", "triangular_dtheta"):
                    r = 0.7 if np.ndim(t) == 0 or k % 2 else np.full(np.shape(t), 0.7)
                    ctx.case((m, n, method, "outside", int(k), form), theta=a)
                    with warnings.catch_warnings(record=True) as w, ctx.guard("angles outside of the period are computed"):
                        warnings.simplefilter("always")
                        got = call(z, method, r, t, False)
                        ctx.ok(len(w) > 0, "angles outside of the period give a warning", theta=a, form=form, method=method)
                        want = {"polynomial_value": lambda: o.zernike(m, n, 0.7, inside), "triangular": lambda: o.triangular(m, inside),
                                "triangular_dtheta": lambda: o.triangular_dtheta(m, inside)}[method]()
                        ctx.ok(np.shape(got) == np.shape(want) and np.all(np.abs(np.asarray(got) - want) <= 1e-9*(1 + abs(m))*(n + 1)*10),
                               "angles outside of the period give the value of the equivalent angle", method=method, form=form, theta=a, got=got, want=want)
        with warnings.catch_warnings(record=True) as w, ctx.guard():
            warnings.simplefilter("always")
            z.polynomial_value(rng.random(5), np.array([0.0, 1.0, 3.0, 6.28, TWO_PI])); z.triangular(0.0); z.triangular_dtheta(TWO_PI); z.triangular([0, 6])
            ctx.ok(not w, "angles inside of the period give no warning", warnings=[str(x.message) for x in w])


def large_of(ctx, item):
    """Large inputs of all container kinds: sampled elements (always the first, the last and those next to powers of two) against the scalars."""
    m, n = item
    from zernpy import ZernPol
    rng = ctx.rng("large", m, n)
    z = ZernPol(m=m, n=n)
    for size in rng.choice([1000, 1025, 4096, 5003, 10007, 33000, 70001, 131073, 200003, 262147, 400001], ctx.scale(1, 4), replace=False):
        size = int(size); even = size - size % 2   # odd ones as lists and vectors, even ones as two rows or columns
        full_r = rng.random(size); full_t = rng.uniform(0, TWO_PI, size)
        r = full_r[:even]; t = full_t[:even]
        forms = [("odd 1D", full_r, full_t), ("odd list", full_r.tolist(), full_t.tolist()), ("odd column", full_r[:, None], full_t[:, None]), ("1D", r, t), ("list", r.tolist(), t.tolist()), ("tuple", tuple(r.tolist()), tuple(t.tolist())), ("2D", r.reshape(2, -1), t.reshape(2, -1)),
                 ("2D column", r.reshape(-1, 2), t.reshape(-1, 2)), ("Fortran order", np.asfortranarray(r.reshape(2, -1)), np.asfortranarray(t.reshape(2, -1))),
                 ("strided", np.repeat(r, 2)[::2], np.repeat(t, 2)[::2]), ("scalar radius", float(r[0]), t), ("scalar angle", r, float(t[0])),
                 ("reversed", r[::-1], t[::-1])]
        marks = [i + d for i in (1 << k for k in range(8, 19)) for d in (-1, 0, 1)] + [k*65536 + d for k in range(2, 7) for d in (-1, 0)] + [even//2 - 1, even//2, even - 2, even - 1, size - 2, size - 1, 0, 1, 999, 1000, 9999, 10000]
        at_all = np.unique([i for i in marks if 0 <= i < size] + rng.integers(0, size, 12).tolist())
        for k in rng.choice(len(forms), ctx.scale(4, 8), replace=False):
            kind, fr, ft = forms[int(k)]
            shape = np.broadcast_shapes(np.shape(fr), np.shape(ft))
            ra = np.broadcast_to(np.asarray(fr), shape); ta = np.broadcast_to(np.asarray(ft), shape)
            at = at_all[at_all < ra.size]
            for method, exact in (("polynomial_value", False), ("radial", False), ("radial_dr", False), ("triangular", False), ("triangular_dtheta", False),
                                  ("polynomial_value", True), ("radial", True), ("radial_dr", True)):
                own = {"radial": np.shape(fr), "radial_dr": np.shape(fr), "triangular": np.shape(ft), "triangular_dtheta": np.shape(ft)}.get(method, shape)
                if own == () or (exact and n > 38):
                    continue
                ctx.case((m, n, method, exact, "large " + kind, size))
                with ctx.guard("large input is computed without exception"):
                    got = call(z, method, fr, ft, exact)
                    if not ctx.ok(isinstance(got, np.ndarray) and got.shape == own, "result has the common shape of the inputs", method=method, exact=exact,
                                  kind=kind, got=np.shape(got), want=own):
                        continue
                    for i in at:
                        ix = np.unravel_index(int(i), shape); a, b = float(ra[ix]), float(ta[ix])
                        want = float(call(z, method, a, b, exact))
                        if not ctx.ok(abs(got[ix] - want) <= float(np.max(tol(method, n, m, np.array([a]), np.array([b])))), "each element equals the value of the pair of scalars",
                                      method=method, exact=exact, kind="large " + kind, size=size, index=[int(q) for q in ix], got=got[ix], want=want):
                            break


def large(ctx):
    rng = ctx.rng("large choice")
    items = [(int(m), n) for n in range(0, 15) for m in rng.choice(np.arange(-n, n + 1, 2), min(n + 1, ctx.scale(3, 15)), replace=False)]
    items += [(int(m), n) for n in range(15, 41, ctx.scale(4, 1)) for m in rng.choice(np.arange(-n, n + 1, 2), 2, replace=False)]
    ctx.pmap(large_of, sorted(items, key=lambda p: -p[1]))


def monitored(ctx):
    mon = monitors.CallMonitor(ctx, shapes=True)
    monitors.run_workloads(ctx, mon, ctx.scale(2, 20))


SECTIONS = [("kinds", kinds), ("structured arrays", patterns), ("angles", angles), ("outside", outside), ("large inputs", large), ("monitored programs", monitored)]
