"""C26: doubtful arguments of polynomials and fits are reported by warnings, ordinary ones are not, and warnings never change results."""
import math
import warnings
import numpy as np
from .. import oracle as o

LEVEL = "exploration"
RULE = ("A case is one call of a polynomial method, generator or fit with the warnings it emitted; non-trivial if a warning is due or an argument lies near the limit "
        "at which it becomes due; distinct by the polynomial, method and arguments.")
ASSUMPTIONS = ["Only whether a warning is emitted is judged, not its text, category or number; whether the report of slow orders by one method also stands for the other methods "
               "of the object is not judged. Single precision angles are not taken within 1e-6 of the limits."]
TWO_PI = 2.0*np.pi
UP, DOWN = math.nextafter(TWO_PI, 10.0), math.nextafter(0.0, -1.0)


def watched(fn, action="always"):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter(action)
        res = fn()
    return res, [str(x.message)[:100] for x in w]


def angles(rng):
    """Angles of some kind and whether some of them are outside of [0, 2*pi]."""
    kind = int(rng.integers(12)); size = int(rng.choice([1, 2, 3, 17, 64])); inside = rng.uniform(0.0, TWO_PI, size); inside[rng.random(size) < 0.2] = rng.choice([0.0, TWO_PI, -0.0])
    bad = float(rng.choice([UP, DOWN, -1e-9, TWO_PI + 1e-9, -0.5, 7.0, -6.3, 20.0, -100.0, 1e6, -5e-324]))
    if kind == 0: return float(rng.choice([0.0, TWO_PI, rng.uniform(0, TWO_PI), -0.0, 5e-324, math.nextafter(TWO_PI, 0.0)])), False
    if kind == 1: return bad, True
    if kind == 2: return int(rng.integers(0, 7)), False
    if kind == 3: return int(rng.choice([7, -1, 8, 100, -100])), True
    if kind == 4: return inside.tolist(), False
    if kind in (5, 6, 7, 8, 9):
        if rng.random() < 0.3:
            inside[:] = inside[0]
        n = int(rng.integers(1, 3)); inside[rng.choice(size, min(n, size), replace=False)] = bad
        if kind == 6 and rng.random() < 0.5 and size > 1:
            inside[0], inside[-1] = -2.0, 5.5  # range above 2*pi
        if kind == 7:
            inside = inside + (TWO_PI - inside.min() + float(rng.uniform(0, 3)) if bad > 0 else -inside.max() - 1e-6)  # all of them outside, the range of one turn kept
        due = bool(np.any(inside < 0.0) or np.any(inside > TWO_PI))
        return (inside.tolist() if kind == 8 else tuple(inside.tolist()) if kind == 9 else inside), due
    if kind == 10: return inside.astype("float32")*np.float32(0.99), False
    return inside.reshape(1, size), False


def radii_for(rng, theta):
    shape = np.shape(theta)
    if shape == ():
        return float(rng.choice([0.0, 1.0, rng.random()])) if rng.random() < 0.6 else rng.random(5)
    if rng.random() < 0.2:
        return float(rng.random())
    r = rng.random(shape); r[rng.random(shape) < 0.1] = rng.choice([0.0, 1.0])
    return r.tolist() if isinstance(theta, list) else r


def same(a, b):
    return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def calls_of(ctx, item):
    from zernpy import ZernPol
    label, count = item; rng = ctx.rng("calls", label); table = o.all_orders(54)
    for k in range(count):
        kind = k % 8
        m, n = table[int(rng.integers(len(table)))] if kind < 2 else table[int(rng.integers(120))] if kind < 6 else (lambda n: (int(n - 2*rng.integers(5))*int(rng.choice([-1, 1])), n))(
            int(rng.choice([36, 37, 38, 39, 40, 41, 42, 47, 48, 49, 50, 51, 52, 53, 54])))
        pol = ZernPol(m=m, n=n); said = set()
        for rep in range(int(rng.integers(1, 4))):
            what = str(rng.choice(["value", "value", "radial", "radial_dr", "triangular", "triangular_dtheta", "normf", "sum"])); exact = bool(rng.random() < 0.35)
            if n > 46 and n - abs(m) > 8:
                exact = True; what = "value" if what == "sum" else what  # seconds of calculation otherwise
            th, outside = angles(rng); r = radii_for(rng, th)
            if what == "value": fn = lambda: pol.polynomial_value(r, th, exact) if exact else pol.polynomial_value(r, th)  # noqa: E731
            elif what == "radial": fn = lambda: pol.radial(r, exact) if exact else pol.radial(r)  # noqa: E731
            elif what == "radial_dr": fn = lambda: pol.radial_dr(r, exact) if exact else pol.radial_dr(r)  # noqa: E731
            elif what == "triangular": fn = lambda: pol.triangular(th)  # noqa: E731
            elif what == "triangular_dtheta": fn = lambda: pol.triangular_dtheta(th)  # noqa: E731
            elif what == "normf": fn = lambda: pol.normf()  # noqa: E731
            else: exact = False; fn = lambda: ZernPol.sum_zernikes([0.5], [pol], r, th)  # noqa: E731
            radial = what in ("value", "radial", "radial_dr", "sum"); limit = 48 if what == "radial_dr" else 50; method = "value" if what == "sum" else what
            over = radial and exact and n > (38 if what == "radial_dr" else 40); slow = radial and not exact and n > limit
            due = (outside and what in ("value", "triangular", "triangular_dtheta", "sum")) or over or (slow and not said)
            sure = not (slow and said and method not in said)  # reported by another method of the object before: both are fine
            repeated = slow and method in said
            ctx.case((label, k, rep, m, n, what, exact), nontrivial=due or n > 36, m=m, n=n, method=what, exact=exact, r=r, theta=th)
            with ctx.guard("doubtful arguments are accepted"):
                action = str(rng.choice(["always", "always", "always", "default", "error"])); res = w = None
                if action == "error":  # nothing is left behind by a warning turned into an exception
                    try:
                        res, _ = watched(fn, "error"); raised = False
                    except Warning:
                        raised = True
                    if sure and not repeated:
                        ctx.ok(raised == due, "a warning is emitted exactly for doubtful arguments", due=due, raised=raised, m=m, n=n, method=what, exact=exact, theta=th)
                    if slow and not raised:
                        said.add(method)
                    ctx.event("warnings turned into errors", int(raised))
                    if raised and slow and not outside:
                        sure = False  # whether it counts as reported isn't judged
                res, w = watched(fn)
                if action != "error" or not slow:
                    if sure:
                        ctx.ok((len(w) > 0) == due, "a warning is emitted exactly for doubtful arguments", due=due, emitted=w, m=m, n=n, method=what, exact=exact, theta=th, r=r)
                    elif outside and what in ("value", "sum"):
                        ctx.ok(len(w) > 0, "a warning is emitted exactly for doubtful arguments", due=True, emitted=w, m=m, n=n, method=what, exact=exact, theta=th)
                ctx.event("warnings due", int(due)); ctx.event("warnings not due", int(not due)); ctx.event("reports of slow orders", int(slow and not said))
                if slow:
                    said.add(method)
                again, _ = watched(fn, "ignore"); ctx.ok(same(res, again), "results don't depend on warnings", m=m, n=n, method=what)
                if over:
                    ctx.ok(np.all(np.asarray(res) == 0.0) and np.shape(res) == (np.shape(r) if np.shape(r) else np.shape(res)), "the exact equation above its limit gives zeros, as warned", got=res)


def calls(ctx):
    ctx.pmap(calls_of, [(i, ctx.scale(2000, 20000)) for i in range(8)])


def generators_of(ctx, item):
    from zernpy import ZernPol, generate_polynomials, generate_phases_image, generate_random_phases, fit_polynomials, fit_polynomials_vectors
    label, count = item; rng = ctx.rng("generators", label)
    for k in range(count):
        with ctx.guard("doubtful arguments are accepted"):
            order = [0, 1, 5, 12, 30, 31, 3.0, 2.7, np.int64(4), "6"][k % 10]; due = not isinstance(order, int) or order > 30
            ctx.case(("generate", label, k, repr(order)), nontrivial=due)
            res, w = watched(lambda: generate_polynomials(order))
            ctx.ok((len(w) > 0) == due, "generate_polynomials warns exactly about high or not integer orders", order=repr(order), emitted=w)
            ctx.ok([p.get_mn_orders() for p in res] == list(o.osa_table(int(order))), "generate_polynomials returns all polynomials, with a warning or without", order=repr(order))
        rows, cols = int(rng.integers(5, 26)), int(rng.integers(5, 26)); kind = int(rng.integers(4)); cols = rows + [0, 0, 1, cols - rows][kind]; quiet = bool(rng.random() < 0.3)
        strict = bool(rng.integers(2)); crop = float(rng.choice([1.0, 0.75, 0.5, 0.9])); img = rng.random((rows, cols)); terms = list(o.osa_table(3))[:int(rng.integers(1, 6))]
        pols = tuple(ZernPol(m=m, n=n) for m, n in terms); due = rows != cols or rows % 2 == 0 or cols % 2 == 0
        ctx.case(("fit", label, k, rows, cols, quiet, strict, crop), nontrivial=due, rows=rows, cols=cols, suppressed=quiet, strict=strict, crop=crop)
        with ctx.guard("doubtful arguments are accepted"):
            (res, _), w = watched(lambda: fit_polynomials(img, pols, crop_radius=crop, suppress_warnings=quiet, strict_circle_border=strict))
            ctx.ok((len(w) > 0) == (due and not quiet), "fitting of an image warns exactly about even sides and images which aren't square, unless suppressed", rows=rows, cols=cols, suppressed=quiet, emitted=w)
            (other, _), w = watched(lambda: fit_polynomials(img, pols, crop_radius=crop, suppress_warnings=not quiet, strict_circle_border=strict))
            ctx.ok((len(w) > 0) == (due and quiet), "fitting of an image warns exactly about even sides and images which aren't square, unless suppressed", rows=rows, cols=cols, suppressed=not quiet, emitted=w)
            ctx.ok(same(res, other), "results don't depend on warnings", rows=rows, cols=cols)
            ctx.event("fits of images with doubtful sides", int(due)); ctx.event("fits of images with good sides", int(not due))
        with ctx.guard("doubtful arguments are accepted"):
            N = int(rng.integers(8, 40)); t = rng.uniform(0, TWO_PI, N); due = bool(rng.integers(2)); t[int(rng.integers(N))] = rng.choice([-0.1, 6.4, UP, DOWN]) if due else TWO_PI
            ctx.case(("fit vectors", label, k, due), nontrivial=due)
            _, w = watched(lambda: fit_polynomials_vectors(pols, rng.random(N), rng.random(N), t))
            ctx.ok((len(w) > 0) == due, "fitting of vectors warns exactly about angles out of range", due=due, emitted=w, angles=t)
        with ctx.guard("doubtful arguments are accepted"):
            a = [float(x) for x in rng.uniform(-1, 1, len(terms))]; steps = (float(rng.uniform(0.02, 0.5)), float(rng.uniform(0.02, np.pi))); ctx.case(("ordinary", label, k, steps), nontrivial=False)
            for name, fn in [("gen_polar_coordinates", lambda: ZernPol.gen_polar_coordinates(*steps)), ("gen_equal_polar_mesh", lambda: ZernPol.gen_equal_polar_mesh(int(rng.integers(4, 60)))),
                             ("gen_zernikes_surface", lambda: ZernPol.gen_zernikes_surface(a, pols, *steps)),
                             ("gen_zernikes_surface, equal numbers", lambda: ZernPol.gen_zernikes_surface(a, pols, equal_n_coordinates=True, n_points=int(rng.integers(4, 60)))),
                             ("generate_phases_image", lambda: generate_phases_image(pols, tuple(a), cols, rows)), ("generate_random_phases", lambda: generate_random_phases(3, cols, rows)),
                             ("comparison", lambda: (pols[0] == pols[-1], pols[0] > pols[-1], str(pols[0]), pols[0].get_polynomial_name())), ("construction", lambda: ZernPol(osa=int(rng.integers(1540))))]:
                _, w = watched(fn); ctx.ok(not w, "ordinary calls emit no warning", call=name, emitted=w, steps=steps)
                ctx.event("ordinary calls")


def generators(ctx):
    ctx.pmap(generators_of, [(i, ctx.scale(40, 500)) for i in range(8)])


SECTIONS = [("calls", calls), ("generators and fits", generators)]
