"""C03: orthonormality over the unit disc, observed through quadrature sums of the returned values."""
import numpy as np
from .. import oracle as o

LEVEL = "exploration"
RULE = ("A case is a set of polynomials evaluated on a quadrature mesh of the disc (every pair of the set is one observation), or one "
        "weighted sum; non-trivial if it holds at least two different polynomials; distinct by its polynomials and mesh.")
ASSUMPTIONS = ["Gauss-Legendre nodes on the radius and equidistant angles integrate the products exactly; the error left is the rounding "
               "error of the values, bounded as in C01."]


def mesh(nr, nt, shift):
    x, w = np.polynomial.legendre.leggauss(nr)
    r = 0.5*(x + 1); t = (np.arange(nt) + shift)*2*np.pi/nt
    rr, tt = np.meshgrid(r, t, indexing="ij")
    ww = np.outer(w*r, np.full(nt, 1.0/nt))  # (1/pi) * r dr dtheta, with dr = w/2 and dtheta = 2 pi/nt
    return rr.ravel(), tt.ravel(), ww.ravel()


def gram(ctx, orders, nr, nt, shift, how, exact=False):
    from zernpy import ZernPol
    r, t, w = mesh(nr, nt, shift)
    A = np.empty((len(orders), r.size)); err = np.empty(len(orders))
    for i, (m, n) in enumerate(orders):
        z = ZernPol(m=m, n=n)
        if how == "sum":
            A[i] = ZernPol.sum_zernikes([1.0], [z], r, t)
        elif how == "product":
            A[i] = z.normf()*z.radial(r, use_exact_eq=exact)*z.triangular(t)
        else:
            A[i] = z.polynomial_value(r, t, use_exact_eq=exact)
        err[i] = float(np.sqrt(np.sum(w*o.tol_zernike(n, m, r, t)**2)))  # L2 bound of the rounding error
        ctx.event("quadrature nodes evaluated", r.size)
    G = (A*w) @ A.T
    tol = 1e-11 + np.add.outer(err, err) + np.outer(err, err)
    return G, tol


def judge(ctx, orders, G, tol, **detail):
    D = np.abs(G - np.eye(len(orders))); bad = ~(D <= tol)
    ctx.ok(np.all(np.isfinite(G)), "quadrature sums are finite", **detail)
    with ctx.lock:
        ctx.rules["mean of product is 1 on the diagonal, else 0"] = ctx.rules.get("mean of product is 1 on the diagonal, else 0", 0) + D.size
    if bad.any():
        i, j = map(int, np.argwhere(bad)[np.argmax(D[bad])])
        ctx.violation("mean of product is 1 on the diagonal, else 0", first=orders[i], second=orders[j], got=G[i, j], want=float(i == j),
                      pairs_failing=int(bad.sum()), **detail)


def all_pairs(ctx):
    """All pairs up to an order in one mesh, in every mode of evaluation."""
    top = ctx.scale(22, 30)
    orders = o.all_orders(top)
    for k, (how, exact) in enumerate((("value", False), ("value", True), ("product", False), ("sum", False))):
        if how == "sum" and not ctx.thorough:
            orders = orders[:100]
        ctx.case((how, exact, top), sample=True, polynomials=len(orders))
        with ctx.guard():
            G, tol = gram(ctx, orders, top + 2, 2*top + 3, 0.3*k, how, exact)
            judge(ctx, orders, G, tol, how=how, exact=exact)
    ctx.extra["max_tolerance_all_pairs"] = float(tol.max())


def chunk(ctx, item):
    label, orders, how, exact = item
    top = max(n for _, n in orders)
    ctx.case((label, how, exact, tuple(orders)), polynomials=orders[:10])
    G, tol = gram(ctx, orders, top + 2, 2*top + 3, 0.1, how, exact)
    judge(ctx, orders, G, tol, how=how)


def same_m(ctx):
    """Families with one |m| (the radial parts must separate): all n up to 40 at least."""
    top = ctx.scale(34, 40)
    items = []
    for m in range(0, top + 1):
        fam = [(s*m, n) for n in range(m, top + 1, 2) for s in ((1, -1) if m else (1,))]
        items.append(("family", fam, "value", False))
        if m % 3 == 0:
            items.append(("family", fam, "value", True))
    ctx.pmap(chunk, items)


def random_sets(ctx):
    rng = ctx.rng("sets")
    pool = [x for x in o.all_orders() if x[1] <= 40 or (abs(x[0]) >= x[1] - 8)]
    items = [("random", [pool[i] for i in rng.choice(len(pool), 14, replace=False)], ("value", "sum", "product")[k % 3], False)
             for k in range(ctx.scale(24, 200))]
    ctx.pmap(chunk, items)


def parseval(ctx):
    """Mean square of a weighted sum = sum of squared weights (what users rely on when reading coefficients as RMS)."""
    from zernpy import ZernPol
    rng = ctx.rng("parseval")
    pool = o.all_orders(24)
    for k in range(ctx.scale(40, 400)):
        sel = [pool[i] for i in rng.choice(len(pool), int(rng.integers(2, 12)), replace=False)]
        c = rng.uniform(-2, 2, len(sel)); top = max(n for _, n in sel)
        ctx.case((tuple(sel), k), weights=c)
        with ctx.guard():
            x, wr = np.polynomial.legendre.leggauss(top + 2); r = 0.5*(x + 1)
            nt = 2*top + 3; t = (np.arange(nt) + rng.random())*2*np.pi/nt; t = t % (2*np.pi)
            S = ZernPol.sum_zernikes(c.tolist(), [ZernPol(m=m, n=n) for m, n in sel], r, t, get_surface=True)
            got = float(np.sum((wr*r)[:, None]*S**2)/nt); want = float(np.sum(c*c))
            tol = 1e-10*(1 + want) + sum(abs(a)*float(np.max(o.tol_zernike(n, m, r))) for a, (m, n) in zip(c, sel))*10
            ctx.ok(abs(got - want) <= tol, "mean square of a sum equals the sum of squared weights", got=got, want=want, tol=tol)


def highest(ctx):
    """Families of the highest azimuthal orders, up to the limit of the library."""
    items = []
    for m in range(ctx.scale(35, 31), o.MAX_N + 1):
        fam = [(s*m, n) for n in range(m, min(m + ctx.scale(5, 9), o.MAX_N + 1), 2) for s in (1, -1)]
        items += [("highest", fam, "value", False), ("highest", fam[:2], "product", False)]
    ctx.pmap(chunk, items)


SECTIONS = [("all pairs", all_pairs), ("families", same_m), ("highest orders", highest), ("random sets", random_sets), ("sums", parseval)]
