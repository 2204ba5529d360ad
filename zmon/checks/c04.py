"""C04: index schemes and construction."""
import itertools
import numpy as np
from .. import oracle as o

LEVEL = "exploration"
RULE = ("A case is one construction (keyword form) of one polynomial or one conversion of one index; the space of polynomials with "
        "n <= 54 and of key aliases is enumerated completely; non-trivial if indices were compared with the reference orderings.")
ASSUMPTIONS = ["Reference orderings are built by enumeration (OSA: by n then m; Noll: by n then |m|, even index for cosine terms; Fringe: by "
               "groups of n+|m|), not by the closed formulas used in the code."]
N_KEYS = ("n", "radial_order")
M_KEYS = ("m", "l", "azimuthal_order", "angular_frequency")
INDEX_KEYS = {"osa": ("osa_index", "osa", "ansi_index", "ansi"), "noll": ("noll_index", "noll"), "fringe": ("fringe_index", "fringe")}


def tables():
    osa = {x: i for i, x in enumerate(o.osa_table(54))}
    noll = {x: i + 1 for i, x in enumerate(o.noll_table(54))}
    fringe = {x: o.fringe_index(*x) for x in o.all_orders()}
    assert len(set(osa.values())) == len(set(noll.values())) == len(set(fringe.values())) == 1540
    return osa, noll, fringe


def plain(*xs):
    return all(isinstance(x, int) and not isinstance(x, bool) for x in xs)


def construct(ctx, orders):
    from zernpy import ZernPol
    osa, noll, fringe = tables()
    for m, n in orders:
        idx = {"osa": osa[m, n], "noll": noll[m, n], "fringe": fringe[m, n]}
        forms = [dict([(a, n), (b, m)]) for a, b in itertools.product(N_KEYS, M_KEYS)] + [{"m": m, "n": n}, {"l": m, "radial_order": n}]
        forms += [{k: idx[s]} for s, ks in INDEX_KEYS.items() for k in ks]
        ref = None
        for kw in forms:
            ctx.case((m, n, tuple(kw.items())))
            with ctx.guard("valid specification is accepted"):
                z = ZernPol(**kw)
                got = z.get_indices()
                ctx.ok(got == ((m, n), idx["osa"], idx["noll"], idx["fringe"]), "indices are those of the reference orderings", kw=kw,
                       got=got, want=((m, n), idx))
                ctx.ok(plain(*got[0], *got[1:]) and plain(*z.get_mn_orders()), "orders and indices are plain integers",
                       types=[type(x).__name__ for x in got[1:]])
                ctx.ok(z.get_mn_orders() == (m, n), "get_mn_orders returns (m, n)", got=z.get_mn_orders())
                if ref is None:
                    ref = z
                ctx.ok(z == ref and ref == z, "all forms of construction give equal objects", kw=kw)


def construction(ctx):
    orders = o.all_orders()
    ctx.pmap(construct, [orders[i::16] for i in range(16)])
    ctx.extra["exhaustive_polynomials"] = len(orders)


def converters(ctx):
    from zernpy import ZernPol
    osa, noll, fringe = tables()
    for (m, n), i in osa.items():
        j, f = noll[m, n], fringe[m, n]
        ctx.case((m, n, "convert"))
        with ctx.guard():
            res = [("get_osa_index", ZernPol.get_osa_index(m, n), i), ("get_noll_index", ZernPol.get_noll_index(m, n), j),
                   ("get_fringe_index", ZernPol.get_fringe_index(m, n), f), ("osa2noll", ZernPol.osa2noll(i), j), ("noll2osa", ZernPol.noll2osa(j), i),
                   ("osa2fringe", ZernPol.osa2fringe(i), f), ("fringe2osa", ZernPol.fringe2osa(f), i)]
            for name, got, want in res:
                ctx.ok(got == want, "converters agree with the reference orderings", function=name, got=got, want=want)
                ctx.ok(plain(got), "converters return plain integers", function=name, type=type(got).__name__)
            for key, val in (("osa_index", i), ("noll_index", j), ("fringe_index", f)):
                got = ZernPol.index2orders(**{key: val})
                ctx.ok(tuple(got) == (m, n), "index2orders inverts the indices", key=key, index=val, got=got)
            ctx.ok(ZernPol.noll2osa(ZernPol.osa2noll(i)) == i and ZernPol.fringe2osa(ZernPol.osa2fringe(i)) == i,
                   "converters are mutual inverses")


def outside(ctx):
    """Indices beyond the handled ones: rejected, or converted correctly - never a wrong answer."""
    from zernpy import ZernPol
    rng = ctx.rng("outside")
    big_osa = {i: x for i, x in enumerate(o.osa_table(75))}; big_noll = {i + 1: x for i, x in enumerate(o.noll_table(75))}
    inv_osa = {x: i for i, x in big_osa.items()}; inv_noll = {x: i for i, x in big_noll.items()}
    fr = {o.fringe_index(m, n): (m, n) for n in range(0, 76) for m in range(-n, n + 1, 2)}
    fr54 = {i for i, x in fr.items() if x[1] <= 54}

    def judge(name, fn, arg, want):
        ctx.case((name, arg))
        try:
            got = fn(arg)
        except ValueError:
            return ctx.ok(True, "index beyond the handled range is rejected or converted correctly")
        ctx.ok(want is not None and got == want, "index beyond the handled range is rejected or converted correctly", function=name, index=arg,
               got=got, want=want)
    far = [int(x) for x in rng.integers(2926, 10**6, 20)]
    for i in list(range(1540, 1700)) + far[:6]:
        x = big_osa.get(i)
        judge("osa2noll", ZernPol.osa2noll, i, inv_noll.get(x)); judge("osa2fringe", ZernPol.osa2fringe, i, o.fringe_index(*x) if x else None)
        ctx.raises(ValueError, lambda: ZernPol(osa=i), "constructor rejects indices of orders above 54", key="osa", index=i)
        x = big_noll.get(i + 1)
        judge("noll2osa", ZernPol.noll2osa, i + 1, inv_osa.get(x))
        ctx.raises(ValueError, lambda: ZernPol(noll=i + 1), "constructor rejects indices of orders above 54", key="noll", index=i + 1)
    gaps = [i for i in range(1, max(fr54)) if i not in fr54]
    for i in sorted({int(x) for x in rng.choice(gaps, ctx.scale(30, 300), replace=False)}) + far[:3]:
        # such an index belongs to n > 54
        g = next(g for g in itertools.count() if (g + 1)**2 >= i)
        rest = i - g*g - 1; am = g - rest//2; x = ((am if rest % 2 == 0 else -am) if am else 0, 2*g - am)
        assert o.fringe_index(*x) == i
        judge("fringe2osa", ZernPol.fringe2osa, i, (x[1]*(x[1] + 2) + x[0])//2)
        ctx.raises(ValueError, lambda: ZernPol(fringe=i), "constructor rejects indices of orders above 54", key="fringe", index=i)
    for bad in (-1, -7, 0, "5", 2.0, None, [3]):
        for name in ("osa2noll", "osa2fringe", "noll2osa", "fringe2osa"):
            if bad == 0 and name.startswith("osa"):
                continue
            ctx.case((name, repr(bad)))
            ctx.raises(ValueError, lambda: getattr(ZernPol, name)(bad), "converters reject malformed indices", function=name, arg=bad)


def far_orders(ctx):
    """The index of given orders is an exact integer for orders of any size."""
    from zernpy import ZernPol
    rng = ctx.rng("far")

    def noll(m, n):  # by counting: all lower orders, then the place within the order
        g = n*(n + 1)//2; a = abs(m)
        if a == 0:
            return g + 1
        first = g + a if n % 2 == 0 else g + a   # the pair of |m| takes two places
        pair = (first, first + 1)
        even, odd = (pair[0], pair[1]) if pair[0] % 2 == 0 else (pair[1], pair[0])
        return even if m > 0 else odd
    table = {x: i + 1 for i, x in enumerate(o.noll_table(54))}
    assert all(noll(*x) == i for x, i in table.items())
    for k in range(ctx.scale(3000, 60000)):
        n = int(10**rng.uniform(1.7, 6.5)); a = n - 2*int(rng.integers(0, n//2 + 1)); m = a if rng.random() < 0.5 else -a
        if k % 5 == 0:
            m = int(rng.choice([n, -n, n % 2, -(n % 2), n - 2, 2 - n]))
        ctx.case((m, n, "far"), m=m, n=n)
        with ctx.guard():
            for name, fn, want in (("get_osa_index", ZernPol.get_osa_index, (n*(n + 2) + m)//2), ("get_noll_index", ZernPol.get_noll_index, noll(m, n)),
                                   ("get_fringe_index", ZernPol.get_fringe_index, o.fringe_index(m, n))):
                got = fn(m, n)
                ctx.ok(got == want and plain(got), "the index of given orders is exact for large orders", function=name, m=m, n=n, got=got, want=want)


def pyramid(ctx):
    from zernpy import generate_polynomials, ZernPol
    tops = list(range(0, ctx.scale(16, 31))) + ctx.scale([54], [40, 53, 54])
    for top in tops:
        ctx.case(("generate", top))
        with ctx.guard():
            ps = generate_polynomials(top)
            ctx.ok(isinstance(ps, tuple) and [p.get_mn_orders() for p in ps] == list(o.osa_table(top)), "generate_polynomials lists the OSA sequence",
                   top=top, got=[p.get_mn_orders() for p in ps][:10])
            ctx.ok(all(isinstance(p, ZernPol) for p in ps) and len({id(p) for p in ps}) == len(ps), "generated polynomials are separate instances")
    for bad in (-1, -3, 55, 80):
        ctx.case(("generate", bad))
        ctx.raises(ValueError, lambda: generate_polynomials(bad), "generate_polynomials rejects orders outside the range", top=bad)
    with ctx.guard():
        ctx.ok([p.get_mn_orders() for p in generate_polynomials(4.0)] == list(o.osa_table(4)), "integral float order is converted")


SECTIONS = [("construction", construction), ("converters", converters), ("outside", outside), ("far orders", far_orders), ("pyramid", pyramid)]
