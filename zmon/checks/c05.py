"""C05: the accept / reject border of constructors and numeric methods."""
import numpy as np
from .. import oracle as o

LEVEL = "exploration"
RULE = ("A case is one keyword combination or one argument combination with its expected verdict (accept, ValueError) from an independent "
        "predicate; all are non-trivial; distinct by keys and values.")
ASSUMPTIONS = ["bool values and positional arguments are not judged; NaN is judged only for grid steps."]
N_KEYS = ("n", "radial_order")
M_KEYS = ("m", "l", "azimuthal_order", "angular_frequency")
I_KEYS = {"osa_index": "osa", "osa": "osa", "ansi_index": "osa", "ansi": "osa", "noll_index": "noll", "noll": "noll", "fringe_index": "fringe",
          "fringe": "fringe"}
BOGUS = ("N", "M", "order", "index", "j", "radial", "azimuthal", "Osa", "fringe_", "k")
FRINGE = {o.fringe_index(*x): x for x in o.all_orders()}


def integer(v):
    return isinstance(v, int) and not isinstance(v, bool)


def expected(kw):
    """(m, n) if the specification is valid, else None."""
    ks = list(kw)
    if len(ks) == 2:
        nk = [k for k in ks if k in N_KEYS]; mk = [k for k in ks if k in M_KEYS]
        if len(nk) == 1 and len(mk) == 1 and integer(kw[nk[0]]) and integer(kw[mk[0]]):
            m, n = kw[mk[0]], kw[nk[0]]
            return (m, n) if o.valid_orders(m, n) else None
        return None
    if len(ks) == 1 and ks[0] in I_KEYS and integer(kw[ks[0]]):
        i = kw[ks[0]]; s = I_KEYS[ks[0]]
        if s == "osa":
            return o.osa_table(54)[i] if 0 <= i < 1540 else None
        if s == "noll":
            return o.noll_table(54)[i - 1] if 1 <= i <= 1540 else None
        return FRINGE.get(i)
    return None


def try_construct(ctx, kw):
    from zernpy import ZernPol
    want = expected(kw)
    ctx.case(tuple((k, repr(v)) for k, v in kw.items()), expected=want)
    if want is None:
        return ctx.raises(ValueError, lambda: ZernPol(**kw), "invalid specification raises ValueError", kw=kw)
    with ctx.guard("valid specification is accepted"):
        ctx.ok(ZernPol(**kw).get_mn_orders() == want, "accepted specification has the specified orders", kw=kw, want=want)


def orders_grid(ctx):
    """Every pair of integers in a square around the valid ones, under rotating aliases."""
    k = 0
    for n in range(-4, 60):
        for m in range(-60, 61):
            try_construct(ctx, {N_KEYS[k % 2]: n, M_KEYS[k % 4]: m} if k % 3 else {M_KEYS[k % 4]: m, N_KEYS[k % 2]: n}); k += 1


def index_borders(ctx):
    rng = ctx.rng("index")
    vals = [-10**9, -2, -1, 0, 1, 2, 3, 1538, 1539, 1540, 1541, 1542, 3025, 3026, 10**6] + [int(x) for x in rng.integers(-50, 3200, ctx.scale(150, 1500))]
    for key in I_KEYS:
        for v in vals:
            try_construct(ctx, {key: v})


def odd_specs(ctx):
    rng = ctx.rng("fuzz")
    keys = list(N_KEYS + M_KEYS + tuple(I_KEYS) + BOGUS)
    vals = [0, 1, 2, 3, 4, 5, -1, -2, 54, 55, 2.0, 1.5, "2", "", None, [2], (1,), {}, 1j, np.int64(2), np.float64(2), np.array(2), np.array([1, 2]), 10**30,
            -10**30, float("nan"), float("inf"), b"2", object()]
    try_construct(ctx, {})
    for _ in range(ctx.scale(6000, 60000)):
        cnt = int(rng.choice([1, 2, 2, 2, 3, 4]))
        ks = rng.choice(len(keys), cnt, replace=False)
        vi = rng.integers(0, 10 if rng.random() < 0.6 else len(vals), cnt)
        try_construct(ctx, {keys[a]: vals[b] for a, b in zip(ks, vi)})
    for a in keys:      # valid pair plus a third key, and pairs of two keys of one kind
        try_construct(ctx, {"n": 2, "m": 0, a: 1}); try_construct(ctx, {"n": 2, a: 0}); try_construct(ctx, {"m": 0, a: 2})
        try_construct(ctx, {a: 2}); try_construct(ctx, {a: 2, "osa": 3})


def equal_values(ctx):
    """Valid orders and indices, one of them replaced by an equal value of another type: not an integer any more."""
    import decimal
    import fractions
    rng = ctx.rng("equal")
    other = [float, np.float64, np.float32, np.int64, np.int32, np.uint8, str, fractions.Fraction, decimal.Decimal, complex, lambda v: [v], lambda v: (v,),
             np.array, lambda v: np.array([v]), lambda v: np.array(float(v)), lambda v: str(float(v)), lambda v: str(v).encode()]
    names = ["float", "float64", "float32", "int64", "int32", "uint8", "str", "Fraction", "Decimal", "complex", "list", "tuple", "0-d array", "array",
             "0-d array of floats", "str of float", "bytes"]
    orders = [(m, n) for n in range(ctx.scale(9, 13)) for m in range(-n, n + 1, 2)]
    for m, n in orders + [(0, 20), (-20, 20), (21, 21), (1, 53), (54, 54)]:
        for name, f in zip(names, other):
            nk = N_KEYS[int(rng.integers(2))]; mk = M_KEYS[int(rng.integers(4))]
            for which in (1, 2, 3):
                if m < 0 and name == "uint8" and which & 1:
                    continue
                a, b = (f(m) if which & 1 else m), (f(n) if which & 2 else n)
                try_construct(ctx, {mk: a, nk: b} if rng.random() < 0.5 else {nk: b, mk: a}); ctx.event("equal values of another type")
    for key in I_KEYS:
        for i in list(range(ctx.scale(16, 60))) + [100]:
            for f in other:
                try_construct(ctx, {key: f(i)}); ctx.event("equal values of another type")


def numeric(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("numeric")
    pool = [ZernPol(m=m, n=n) for m, n in o.all_orders(14)] + [ZernPol(m=m, n=n) for m, n in ((0, 20), (-3, 25), (40, 40), (41, 41), (-54, 54))]
    outside = [-1.0, -1e-12, -5e-324, 1.0 + 2.3e-16, 1.0 + 1e-9, 1.01, 2.0, 1e300, float("inf"), -float("inf"), 2, -1]
    rej = "radii outside [0, 1] raise ValueError"
    for z in pool:
        mn = z.get_mn_orders()
        for x in (rng.choice(len(outside), 5, replace=False) if not ctx.thorough else range(len(outside))):
            bad = outside[int(x)]; arr = rng.random(int(rng.integers(1, 7))); arr[int(rng.integers(arr.size))] = bad
            for r in (bad, arr, arr.reshape(1, -1), arr.tolist(), tuple(arr.tolist())):
                t = 0.3 if rng.random() < 0.5 or not isinstance(r, np.ndarray) else rng.uniform(0, 6, r.shape)
                ctx.case((mn, "r", repr(r)))
                for exact in (False, True):
                    ctx.raises(ValueError, lambda: z.polynomial_value(r, t, use_exact_eq=exact), rej, method="polynomial_value", mn=mn, r=r, exact=exact)
                    ctx.raises(ValueError, lambda: z.radial(r, use_exact_eq=exact), rej, method="radial", mn=mn, r=r, exact=exact)
                    ctx.raises(ValueError, lambda: z.radial_dr(r, use_exact_eq=exact), rej, method="radial_dr", mn=mn, r=r, exact=exact)
        for sr, st in (((3,), (4,)), ((1,), (5,)), ((2, 3), (3, 2)), ((6,), (2, 3)), ((1, 4), (4,)), ((5,), (1,)), ((1, 6), (6, 1)), ((6, 1), (1, 6)),
                       ((2, 3), (2, 1)), ((1, 3), (2, 3)), ((4,), (4, 1)), ((1,), (1, 1)), ((2, 1, 2), (2, 2, 1)), ((2, 2), (2, 2, 1)), ((1, 1), (1,))):
            ctx.case((mn, sr, st))
            ctx.raises(ValueError, lambda: z.polynomial_value(rng.random(sr), rng.random(st)), "arrays of unequal shape raise ValueError", mn=mn,
                       shapes=(sr, st))
        # and the borders themselves are accepted
        for r in (0.0, 1.0, 0, 1, np.array([0.0, 1.0]), [0, 1], np.nextafter(1.0, 0), 5e-324):
            ctx.case((mn, "border", repr(r)))
            with ctx.guard("radii on the borders are accepted"):
                z.polynomial_value(r, 0.0); z.radial(r); z.radial_dr(r)


def sums(ctx):
    from zernpy import ZernPol, ZernPSF
    rng = ctx.rng("sums")
    P = [ZernPol(osa=i) for i in range(10)]
    foreign = [None, "Z", (0, 2), 5, object(), ZernPol, np.zeros(3), {"m": 0}]
    r, t = rng.random(4), rng.random(4)
    k = 0
    for a in range(6):
        for b in range(6):
            for surf in (False, True):
                for args in ((r, t), (0.5, 0.1), (r, 0.1), (r.tolist(), t.tolist())):
                    cs = rng.random(a); cs = [cs.tolist(), tuple(cs.tolist()), cs][k % 3]; ps = [P[:b], tuple(P[:b])][k % 2]; k += 1
                    ctx.case(("sum", a, b, surf, k))
                    call = lambda: ZernPol.sum_zernikes(cs, ps, *args, get_surface=surf)  # noqa: E731
                    if a != b or a == 0:
                        ctx.raises(ValueError, call, "mismatched or empty coefficients and polynomials raise ValueError", lengths=(a, b), surface=surf)
                        if a != b and surf:
                            ctx.raises(ValueError, lambda: ZernPol.gen_zernikes_surface(cs, ps), "mismatched or empty coefficients and polynomials raise ValueError",
                                       lengths=(a, b), method="gen_zernikes_surface")
                    else:
                        with ctx.guard("matching coefficients and polynomials are accepted"):
                            call()
    for rep in range(ctx.scale(1, 6)):
        for a in range(1, 5):
            for i in range(a):
                for f in foreign:
                    for surf in (False, True):
                        for zero in (False, True):
                            cs = rng.uniform(0.1, 1, a).tolist(); cs[i] = 0.0 if zero else cs[i]
                            bad = [ZernPol(osa=int(x)) for x in rng.choice(30, a, replace=False)]; bad[i] = f
                            args = [(r, t), (r, t[:3]), (0.5, 0.1)][int(rng.integers(3))] if surf else [(r, t), (0.5, 0.1)][int(rng.integers(2))]
                            ctx.case(("foreign", a, i, repr(type(f)), surf, zero, rep))
                            ctx.raises(ValueError, lambda: ZernPol.sum_zernikes(cs, bad, *args, get_surface=surf),
                                       "foreign object among polynomials raises ValueError", position=i, object=repr(f), surface=surf, coefficients=cs)
                    if len(bad) > 1:
                        ctx.raises(ValueError, lambda: ZernPSF(bad), "PSF of a foreign object raises ValueError", position=i, object=repr(f))
        for f in foreign:
            ctx.raises(ValueError, lambda: ZernPSF([f]), "PSF of a foreign object raises ValueError", object=repr(f))
            if not hasattr(f, "__len__"):
                ctx.raises(ValueError, lambda: ZernPSF(f), "PSF of a foreign object raises ValueError", object=repr(f))
    for empty in ((), [], np.array([])):
        ctx.case(("psf empty", repr(empty)))
        ctx.raises(ValueError, lambda: ZernPSF(empty), "PSF without polynomials raises ValueError")
    for _ in range(ctx.scale(30, 300)):
        ps = [ZernPol(osa=int(i)) for i in rng.choice(30, int(rng.integers(2, 7)), replace=False)]
        ctx.case(("psf", tuple(p.get_indices()[1] for p in ps)))
        with ctx.guard("PSF of distinct polynomials is accepted"):
            ZernPSF(ps); ZernPSF(tuple(ps)); ZernPSF(ps[:1]); ZernPSF(ps[0])
        dup = ps + [ZernPol(noll=ps[int(rng.integers(len(ps)))].get_indices()[2])]; rng.shuffle(dup)
        ctx.raises(ValueError, lambda: ZernPSF(dup), "PSF of repeated polynomials raises ValueError")


def steps(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("steps")
    rs = [0.0, -0.1, -1e-300, 0.5 + 1e-12, 0.51, 1.0, 5.0, float("nan"), float("inf"), -float("inf"), 0.5, 0.3, 0.02, 0.25]
    ts = [0.0, -0.1, -1e-300, np.pi + 1e-12, 3.2, 7.0, float("nan"), float("inf"), -float("inf"), np.pi, 1.0, 0.05, 3.1]
    P = [ZernPol(osa=4)]
    for a in rs + rng.uniform(-0.3, 0.9, ctx.scale(20, 200)).tolist():
        for b in ts + rng.uniform(-1, 5, 4).tolist():
            if (0 < a < 0.01) or (0 < b < 0.01):
                continue
            good = 0.0 < a <= 0.5 and 0.0 < b <= np.pi
            ctx.case((a, b), expected=good)
            if good:
                with ctx.guard("steps in range are accepted"):
                    ZernPol.gen_polar_coordinates(a, b)
            else:
                ctx.raises(ValueError, lambda: ZernPol.gen_polar_coordinates(a, b), "steps out of range raise ValueError", r_step=a, theta_step=b)
                ctx.raises(ValueError, lambda: ZernPol.gen_zernikes_surface([1.0], P, a, b), "steps out of range raise ValueError", r_step=a, theta_step=b)


def no_damage(ctx):
    """Rejected calls leave live objects as they were."""
    from zernpy import ZernPol
    rng = ctx.rng("damage")
    live = [ZernPol(m=m, n=n) for m, n in o.all_orders(15)]
    before = [(z.get_indices(), str(z), z.polynomial_value(0.37, 1.1), z.radial_dr(0.37)) for z in live]
    for k in range(ctx.scale(300, 3000)):
        kw = {str(rng.choice(N_KEYS)): int(rng.integers(-3, 60)), str(rng.choice(M_KEYS)): int(rng.integers(-60, 60))}
        if expected(kw) is None:
            ctx.case(("reject", k))
            ctx.raises(ValueError, lambda: ZernPol(**kw), "invalid specification raises ValueError", kw=kw)
        z = live[int(rng.integers(len(live)))]
        ctx.raises(ValueError, lambda: z.polynomial_value(1.5, 0.0), "radii outside [0, 1] raise ValueError")
    after = [(z.get_indices(), str(z), z.polynomial_value(0.37, 1.1), z.radial_dr(0.37)) for z in live]
    for z, a, b in zip(live, before, after):
        ctx.ok(a == b, "rejected calls leave live polynomials unchanged", before=a, after=b)


SECTIONS = [("orders grid", orders_grid), ("index borders", index_borders), ("odd specifications", odd_specs), ("equal values", equal_values), ("radii and shapes", numeric),
            ("sums and sets", sums), ("steps", steps), ("live objects", no_damage)]
