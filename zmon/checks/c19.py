"""C19: comparison, ordering, names and text form of polynomials."""
import copy
import itertools
import operator
import pickle
import re
import numpy as np
from .. import oracle as o
from .c04 import tables

LEVEL = "exploration"
RULE = ("A case is one polynomial compared with all others (both operators, both sides), one sorted collection, or the names and text of one polynomial; "
        "all polynomials with n <= 54 are enumerated; non-trivial if the polynomial has partners of the same order; distinct by the polynomial or collection.")
ASSUMPTIONS = ["Names are those of the naming convention given in the code (Wikipedia for n <= 4, continued regularly up to n = 7), compared without regard "
               "to case, spaces, and points."]


def objects():
    from zernpy import ZernPol
    return {x: ZernPol(m=x[0], n=x[1]) for x in o.osa_table(54)}


def compared_of(ctx, item):
    i0, step = item
    objs = list(objects().items()); n = len(objs); total = 0
    for i in range(i0, n, step):
        (x, a) = objs[i]; ctx.case(("pairs", x), nontrivial=x != (0, 0), m=x[0], n=x[1])
        with ctx.guard("comparison works"):
            eq = [j for j in range(n) if (a == objs[j][1]) is not (j == i)]
            ne = [j for j in range(n) if (a != objs[j][1]) is not (j != i)]
            gt = [j for j in range(n) if (a > objs[j][1]) is not (i > j)]
            lt = [j for j in range(n) if (a < objs[j][1]) is not (i < j)]
            for name, bad in (("==", eq), ("!=", ne), (">", gt), ("<", lt)):
                ctx.ok(not bad, "comparison agrees with orders and OSA index", operator=name, first=x, others=[objs[j][0] for j in bad[:4]], count=len(bad))
        total += 4*n
    ctx.event("comparisons", total)


def compared(ctx):
    step = 8
    ctx.pmap(compared_of, [(i, step) for i in range(step)])
    ctx.extra["exhaustive_pairs"] = 1540*1540


def identity(ctx):
    """Objects of the same polynomial made in different ways, copied or used before, stay equal and unequal to the others."""
    from zernpy import ZernPol, generate_polynomials
    osa, noll, fringe = tables(); rng = ctx.rng("identity")
    gen = generate_polynomials(54) if ctx.scale(0, 1) else generate_polynomials(25)
    for k, x in enumerate(o.osa_table(54)):
        ctx.case(("identity", x), m=x[0], n=x[1])
        with ctx.guard("comparison works"):
            a = ZernPol(m=x[0], n=x[1])
            forms = [ZernPol(osa=osa[x]), ZernPol(noll_index=noll[x]), ZernPol(fringe=fringe[x]), ZernPol(l=x[0], radial_order=x[1]), copy.copy(a), copy.deepcopy(a),
                     pickle.loads(pickle.dumps(a))]
            if k < len(gen):
                forms.append(gen[k])
            used = ZernPol(m=x[0], n=x[1]); used.radial(0.5, use_exact_eq=True) if x[1] <= 40 else None; used.triangular(0.3); used.normf(); forms.append(used)
            bad = [i for i, b in enumerate(forms) if not (a == b and b == a and not a != b and not a > b and not a < b and str(a) == str(b)
                                                          and a.get_polynomial_name() == b.get_polynomial_name() and a.get_polynomial_name(True) == b.get_polynomial_name(short=True))]
            ctx.ok(not bad, "objects of the same polynomial are equal and have the same text", polynomial=x, forms=bad)
            y = (x[0], x[1] - 2) if x[1] - 2 >= abs(x[0]) else (-x[0], x[1])
            if y != x:
                ctx.ok(all(not (b == ZernPol(m=y[0], n=y[1])) for b in forms), "different polynomials are unequal", first=x, second=y)
                ctx.ok([b in (ZernPol(m=y[0], n=y[1]),) for b in forms] == [False]*len(forms) and [b in [ZernPol(m=y[0], n=y[1]), a] for b in forms] == [True]*len(forms),
                       "membership in collections follows equality", first=x, second=y)


def sorting(ctx):
    objs = objects(); keys = list(objs); rng = ctx.rng("sorting")
    for k in range(ctx.scale(150, 3000)):
        n = int(rng.choice([2, 3, 10, 50, 300])); pick = [keys[int(i)] for i in rng.integers(0, len(keys), n)]
        if k % 4 == 0:
            pick = [y for x in pick for y in (x, (-x[0], x[1]))]
        ctx.case(("sorting", k, n), count=len(pick))
        with ctx.guard("comparison works"):
            s = sorted(objs[x] for x in pick); want = sorted(pick, key=lambda x: keys.index(x))
            ctx.ok([z.get_mn_orders() for z in s] == want, "sorting yields the OSA sequence", got=[z.get_mn_orders() for z in s][:8], want=want[:8])
            ctx.ok(max(objs[x] for x in pick).get_mn_orders() == want[-1] and min(objs[x] for x in pick).get_mn_orders() == want[0], "largest and smallest polynomial by OSA index")
            r = sorted((objs[x] for x in pick), reverse=True)
            ctx.ok([z.get_mn_orders() for z in r] == want[::-1], "sorting yields the OSA sequence", reverse=True)


def foreign(ctx):
    from zernpy import ZernPol, ZernPSF
    class Alike:  # noqa: E306
        def get_mn_orders(self): return (0, 2)
        def get_indices(self): return ((0, 2), 4, 4, 4)
    for x in ((0, 0), (-1, 1), (0, 2), (5, 21)):
        z = ZernPol(m=x[0], n=x[1])
        for i, other in enumerate([None, 0, 4, 4.0, True, "Defocus", (0, 2), [0, 2], {"n": 2, "m": 0}, np.int64(4), Alike(), ZernPol, ZernPSF(z), object(), str(z), [z], 1j, b"x", len]):
            for name in ("eq", "ne", "gt", "lt"):
                ctx.case(("foreign", x, i, name), m=x[0], n=x[1], other=repr(other)[:40], operator=name)
                if name == "lt":
                    # reflected: the foreign object is on the left side of >
                    try:
                        r = operator.gt(other, z)
                    except (TypeError, ValueError):
                        ctx.ok(True, "foreign objects are not ordered")
                    else:
                        ctx.ok(isinstance(other, np.generic) or False, "foreign objects are not ordered", result=repr(r))
                    continue
                ctx.raises(ValueError, lambda: getattr(operator, name)(z, other), rule="comparison with a foreign object raises ValueError")


# ---------------------------------------------------------------- names
def name_of(m, n):
    """Words of the long name and of the short one."""
    if (m, n) == (0, 0): return "Piston", "Piston"
    if (m, n) == (0, 2): return "Defocus", "Defocus"
    k = abs(m); rank = (n - k)//2
    if k == 0:
        return ({4: "Primary", 6: "Secondary"}[n] + " spherical", {4: "", 6: "2d"}[n] + "spherical")
    noun, short = {1: ("tilt", "tilt"), 2: ("astigmatism", "astigm"), 3: ("trefoil", "3foil"), 4: ("quadrafoil", "4foil"), 5: ("pentafoil", "5foil"),
                   6: ("sexfoil", "6foil"), 7: ("septfoil", "7foil")}[k]
    if k == 1 and n > 1:
        noun = short = "coma"; rank -= 1
    if k == 2 and rank:
        short = "ast"
    if k == 1:
        side = "Vertical" if m < 0 else "Horizontal"
    elif k % 2:
        side = "Vertical" if m < 0 else "Oblique"
    else:
        side = "Oblique" if m < 0 else "Vertical"
    ordinal = ["", "secondary", "thirdly"][rank]; sh = ["", "2d", "3d"][rank]
    return side + ordinal + noun, {"Vertical": "Vert", "Horizontal": "Hor", "Oblique": "Obliq"}[side] + sh + short


def norm(s):
    return re.sub(r"[\s.]+", "", s).lower()


def names(ctx):
    from zernpy import ZernPol
    long, short = {}, {}; osa, noll, fringe = tables()
    for x in o.osa_table(54):
        ctx.case(("names", x), m=x[0], n=x[1])
        with ctx.guard("names and text are available"):
            z = ZernPol(m=x[0], n=x[1]); a = z.get_polynomial_name(); b = z.get_polynomial_name(short=True); t = str(z)
            ctx.ok(isinstance(a, str) and isinstance(b, str), "names are text", polynomial=x)
            ctx.ok(z.get_polynomial_name(False) == a and z.get_polynomial_name(True) == b, "names are the same at each call", polynomial=x)
            if x[1] <= 7:
                wa, wb = name_of(*x)
                ctx.ok(norm(a) == norm(wa), "long name follows the naming convention", polynomial=x, got=a, want=wa)
                ctx.ok(norm(b) == norm(wb), "short name follows the naming convention", polynomial=x, got=b, want=wb)
                ctx.ok(a not in long and b not in short, "different polynomials have different names", polynomial=x, name=a, short=b, same=(long.get(a), short.get(b)))
                ctx.ok(len(b) <= len(a), "short name is not longer than the long one", polynomial=x)
                long[a] = x; short[b] = x
            else:
                ctx.ok(a == "" and b == "", "polynomials above the 7th order have no name", polynomial=x, got=(a, b))
            ctx.ok(a in t, "text contains the name", polynomial=x, text=t)
            nums = {k: int(v) for k, v in re.findall(r"(\w+)\s*=\s*(-?\d+)", t)}; low = {k.lower(): v for k, v in nums.items()}
            want = {"n": x[1], "m": x[0], "osa": osa[x], "noll": noll[x], "fringe": fringe[x]}
            ctx.ok(low == want, "text contains the orders and indices", polynomial=x, text=t, want=want)
            ctx.ok(f"{z}" == t and str(z) == t, "text is the same at each call", polynomial=x)


SECTIONS = [("names and text", names), ("pairs", compared), ("identity", identity), ("sorting", sorting), ("foreign objects", foreign)]
