"""C09: generated phase images, pixel by pixel."""
import random
import numpy as np
from .. import oracle as o
from .c08 import objects, oracle_sum, terms

LEVEL = "exploration"
RULE = ("A case is one generated image (size, polynomials, amplitudes; or the random state of the random generator). Non-trivial if the image "
        "has at least one non-constant term and both pixels inside; distinct by size and terms.")
ASSUMPTIONS = ["Pixels may differ from the oracle by the accuracy bounds of the terms, plus the effect of rounding of the radius and angle (1e-9).",
               "The random generator uses the module `random` (documented amplitudes are only judged by their contract, not by their distribution)."]
TWO_PI = 2*np.pi


def polar_image(h, w):
    """Exact integer geometry of the image: inside mask, radius, angle."""
    ci, cj = h//2, w//2; R = 1 + min(w, h)//2
    i, j = np.mgrid[0:h, 0:w]
    d2 = (i - ci)**2 + (j - cj)**2
    inside = d2 <= R*R
    rho = np.sqrt(d2)/R
    theta = np.arctan2(ci - i, j - cj); theta = np.where(theta < 0, theta + TWO_PI, theta)
    return inside, np.where(inside, rho, 0.0), theta


def judge_image(ctx, img, orders, amps, h, w, rule):
    if not ctx.ok(isinstance(img, np.ndarray) and img.shape == (h, w), "image has the requested height and width", got=np.shape(img), want=(h, w)):
        return
    inside, rho, theta = polar_image(h, w)
    ctx.ok(np.all(img[~inside] == 0.0), "pixels outside of the circle are zero", h=h, w=w, worst=np.max(np.abs(img[~inside])) if (~inside).any() else 0)
    want, tol = oracle_sum(orders, amps, np.minimum(rho, 1.0), theta)
    slope = sum(abs(a)*(n + 1)*(n + 2)**2 for (m, n), a in zip(orders, amps))  # |grad Z| bounded by ~ n^2 * norm
    bad = inside & ~(np.abs(img - want) <= tol + 1e-12*slope + 1e-14)
    ctx.ok(not bad.any(), rule, h=h, w=w, terms=orders, amplitudes=amps, pixels=np.argwhere(bad)[:3].tolist(), got=img[bad][:3], want=want[bad][:3],
           count=int(bad.sum()))
    ctx.event("pixels compared", int(inside.sum())); ctx.event("background pixels", int((~inside).sum()))


def sizes(rng, thorough):
    out = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (1, 9), (9, 1), (2, 9), (3, 8), (4, 4), (5, 5), (16, 16), (17, 17), (16, 17), (17, 16), (20, 40), (41, 20),
           (64, 10), (33, 65), (24, 25), (11, 12), (50, 51)]
    for _ in range(160 if thorough else 18):
        out.append((int(rng.integers(1, 70)), int(rng.integers(1, 70))))
    return out


def given_of(ctx, item):
    k, (h, w) = item
    from zernpy import ZernPol, generate_phases_image
    rng = ctx.rng("given", k, h, w)
    for rep in range(2 if ctx.thorough or k < 30 else 1):
        orders, amps = terms(rng, [3, 6, 12, 20][(k + rep) % 4], int(rng.integers(1, 6)))
        if k < 4:
            orders, amps = [(-1, 1), (1, 1), (-2, 2), (3, 3)], np.array([1.0, 2.0, 3.0, 4.0])
        if min(h, w) <= 4 and (k >= 4 or rep):   # the centre holds a good part of these images: a term which is not zero there
            orders = list(orders) + [[(0, 0), (0, 2), (0, 4)][int(rng.integers(3))]]; amps = np.append(amps, rng.uniform(0.3, 1))
        pols = objects(rng, orders)
        seqs = [(tuple, tuple), (list, list), (tuple, np.asarray), (list, tuple)][int(rng.integers(4))]
        ctx.case((h, w, orders, amps.tolist()), nontrivial=any(n > 0 for _, n in orders), size=(h, w), terms=orders, amplitudes=amps)
        with ctx.guard("image is generated"):
            img = generate_phases_image(seqs[0](pols), seqs[1](amps.tolist()), img_width=w, img_height=h)
            judge_image(ctx, img, orders, amps, h, w, "pixels inside of the circle hold the sum of polynomials")
            if rep == 0 and h*w < 800:
                again = generate_phases_image(polynomials=seqs[0](pols), polynomials_amplitudes=seqs[1](amps.tolist()), img_height=h, img_width=w)
                ctx.ok(np.array_equal(img, again), "generation is repeatable")


def given(ctx):
    ctx.pmap(given_of, list(enumerate(sizes(ctx.rng("sizes"), ctx.thorough))))
    if True:  # the default size, once
        from zernpy import ZernPol, generate_phases_image
        ctx.case("default size")
        with ctx.guard("image is generated"):
            img = generate_phases_image((ZernPol(m=-1, n=3), ZernPol(m=2, n=2)), (0.7, -1.1))
            judge_image(ctx, img, [(-1, 3), (2, 2)], [0.7, -1.1], 513, 513, "pixels inside of the circle hold the sum of polynomials")


def large(ctx):
    """Images of realistic sizes and with many polynomials; the random generator with high orders."""
    rng = ctx.rng("large")
    dims = [(200, 200), (201, 256), (256, 201), (100, 640), (600, 90), (333, 332), (480, 640), (5, 1001), (6, 1500), (7, 2049), (1001, 5), (2050, 4), (3, 4100), (1030, 24), (23, 1100), (1201, 1201)] + [
        (int(rng.integers(70, 400)), int(rng.integers(70, 400))) for _ in range(ctx.scale(5, 60))]
    ctx.pmap(large_of, list(enumerate(dims)))
    ctx.pmap(large_random, [(order, int(rng.integers(5, 60)), int(rng.integers(5, 60))) for order in (7, 11, 12, 13, 14, 15, 16, 18) for _ in range(ctx.scale(1, 5))])


def large_of(ctx, item):
    k, (h, w) = item
    from zernpy import ZernPol, generate_phases_image
    rng = ctx.rng("large", k, h, w)
    many = h*w < 60000 and k % 2
    table = list(o.osa_table(int(rng.choice([5, 8, 12]))))
    idx = rng.permutation(len(table))[:int(rng.integers(20, 40)) if many else int(rng.integers(1, 5))]
    orders = [table[i] for i in idx]; amps = rng.uniform(-1.5, 1.5, len(orders))
    pols = tuple(ZernPol(m=m, n=n) for m, n in orders)
    ctx.case((h, w, orders), nontrivial=any(n > 0 for _, n in orders), size=(h, w), terms=orders)
    with ctx.guard("image is generated"):
        judge_image(ctx, generate_phases_image(pols, tuple(amps.tolist()), w, h), orders, amps, h, w, "pixels inside of the circle hold the sum of polynomials")


def large_random(ctx, item):
    order, h, w = item
    from zernpy import generate_random_phases
    random.seed(int(ctx.rng("high order", order, h, w).integers(2**31)))
    ctx.case((order, h, w), order=order, size=(h, w))
    with ctx.guard("random image is generated"):
        contract(ctx, generate_random_phases(max_order=order, img_width=w, img_height=h), order, h, w, 4, order)


class Stub:
    """random.choice / random.uniform replaced to drive the generator into chosen outcomes."""

    def __init__(self, choices, uniforms):
        self.c, self.u = list(choices), list(uniforms)

    def choice(self, seq):
        if not self.c:
            return random.choice(seq)
        v = self.c.pop(0)
        if len(seq) and isinstance(seq[0], bool):
            return bool(v) if bool(v) in seq else seq[0]
        return seq[int(v) % len(seq)]

    def uniform(self, a, b):
        return a + (b - a)*(self.u.pop(0) if self.u else random.random())

    def __getattr__(self, name):  # anything else of the module
        return getattr(random, name)


def contract(ctx, res, order, h, w, digits, how):
    if not ctx.ok(isinstance(res, tuple) and len(res) == 3, "generator returns image, amplitudes and polynomials", how=how):
        return
    img, amps, pols = res
    table = list(o.osa_table(order))
    ok = ctx.ok(isinstance(pols, tuple) and [p.get_mn_orders() for p in pols] == table, "returned polynomials are all up to the order in OSA sequence",
                how=how, got=[p.get_mn_orders() for p in pols][:12])
    if not ctx.ok(np.shape(amps) == (len(pols),), "one amplitude per polynomial", how=how) or not ok:
        return
    a = np.asarray(amps, float)
    ctx.ok(np.all(np.abs(a) <= 1.5 + 10.0**-digits), "amplitudes lie in [-1.5, 1.5]", how=how, worst=np.max(np.abs(a)))
    ctx.ok(np.max(np.abs(a)) >= 0.08 - 10.0**-digits, "at least one amplitude is not less than 0.08", how=how, largest=np.max(np.abs(a)))
    judge_image(ctx, img, table, a, h, w, "random image holds the sum of the returned amplitudes and polynomials")
    return a


def kinds_of(ctx, item):
    """Sizes of other integer types: the same images."""
    label, count = item
    from zernpy import ZernPol, generate_phases_image, generate_random_phases
    rng = ctx.rng("kinds of sizes", label)
    for k in range(count):
        names = [str(x) for x in rng.choice(["uint8", "int8", "uint16", "int16", "uint32", "int32", "int64", "uint64", "int"], 2)]
        h, w = (int(rng.integers(1, 128)) for _ in range(2))
        H, W = ((int if x == "int" else getattr(np, x))(v) for x, v in zip(names, (h, w)))
        orders, amps = terms(rng, [3, 6, 10][k % 3], int(rng.integers(1, 5)))
        ctx.case((h, w, names, orders, amps.tolist()), size=(h, w), types=names)
        with ctx.guard("image is generated"):
            img = generate_phases_image([ZernPol(m=m, n=n) for m, n in orders], amps.tolist(), img_width=W, img_height=H)
            judge_image(ctx, img, orders, amps, h, w, "pixels inside of the circle hold the sum for sizes of all integer types")
            if h*w < 2500:
                order, s = int(rng.integers(0, 6)), int(rng.integers(2**31)); random.seed(s)
                contract(ctx, generate_random_phases(max_order=order, img_width=W, img_height=H, round_digits=4), order, h, w, 4, s)
        for x in names:
            ctx.event("sizes of type " + x)


def kinds(ctx):
    ctx.pmap(kinds_of, [(i, ctx.scale(8, 80)) for i in range(8)])


def randoms_of(ctx, item):
    label, count = item
    from zernpy import generate_random_phases
    rng = ctx.rng("random", label)
    seen = set()
    for k in range(count):
        order = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10])); h, w = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        digits = int(rng.choice([4, 4, 2, 6])); s = int(rng.integers(2**31))
        ctx.case((order, h, w, digits, s), order=order, size=(h, w))
        random.seed(s)
        with ctx.guard("random image is generated"):
            a = contract(ctx, generate_random_phases(max_order=order, img_width=w, img_height=h, round_digits=digits), order, h, w, digits, s)
            if a is not None:
                seen.add(tuple(a))
                rest = np.abs(a*10**digits - np.round(a*10**digits)) > 1e-6
                ctx.ok(rest.sum() <= 1, "amplitudes are rounded to the requested digits (except a replaced one)", digits=digits, amps=a)
    ctx.event("distinct random amplitude sets", len(seen))


def randoms(ctx):
    ctx.pmap(randoms_of, [(i, ctx.scale(20, 200)) for i in range(8)])


def forced(ctx):
    """Rare outcomes of the random selection: nothing selected, all selected amplitudes small, replacement small as well."""
    import zernpy.zernikepol as zk
    from zernpy import generate_random_phases
    rng = ctx.rng("forced")
    if not hasattr(zk, "random") or not hasattr(zk.random, "choice"):
        ctx.event("random source not replaceable")
        return
    saved = zk.random
    cases = []
    for order in (0, 1, 2, 4, 6, 9):
        n = (order + 1)*(order + 2)//2
        for idx in {0, n - 1, int(rng.integers(n))}:
            cases.append((order, [False]*n + [idx], [0.5]))                    # nothing selected, replacement is zero
            cases.append((order, [False]*n + [idx], [0.52]))                   # replacement small
            cases.append((order, [False]*n + [idx], [0.48, 0.0]))              # replacement small negative, then smallest allowed
            cases.append((order, [False]*n + [idx], [0.9]))
            cases.append((order, [True]*n + [idx], [0.51]*n + [0.499, 0.7]))   # all selected, all small
            cases.append((order, [True]*n + [idx], [0.0]*n))                   # all at the border
            cases.append((order, [True]*n + [idx], [1.0]*n))
            cases.append((order, [True] + [False]*(n - 1) + [idx], [0.5, 0.1]))
    try:
        for order, ch, un in cases:
            h, w = int(rng.integers(3, 16)), int(rng.integers(3, 16))
            ctx.case(("forced", order, str(ch), str(un)), order=order, size=(h, w))
            zk.random = Stub(ch, un)
            with ctx.guard("random image is generated for each outcome of the selection"):
                contract(ctx, generate_random_phases(max_order=order, img_width=w, img_height=h), order, h, w, 4, [len(ch), un[:2]])
    finally:
        zk.random = saved


SECTIONS = [("given polynomials", given), ("large images", large), ("types of sizes", kinds), ("random generator", randoms), ("forced selections", forced)]
