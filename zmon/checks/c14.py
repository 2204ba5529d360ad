"""C14: properties of PSF objects under random histories of accepted and rejected calls, against a state model."""
import warnings
import numpy as np
from math import pi
from .. import oracle as o
from .c11 import calculate

LEVEL = "exploration"
RULE = ("A case is one call of a history on a PSF object (setting physical or calculation properties, calculating), judged against a model of the state; "
        "non-trivial if the object was already in a state different from the initial one or the call has to be rejected; distinct by object, history and call.")
ASSUMPTIONS = ["Pixel sizes closer than 1e-9 (relative) to the Nyquist size are only tried where 0.25*wavelength/NA is exact in binary.",
               "Infinite values and non-numeric types are not part of the property."]
PUBLIC = ("NA", "wavelength", "pixel_size", "pixel_size_nyquist", "k", "expansion_coeff", "alpha", "coefficients", "amplitudes", "kernel_size",
          "n_int_r_points", "n_int_phi_points", "airy", "json_file_path")


def orders(psf):
    return psf.zernpol.get_mn_orders() if psf.zernpol is not None else tuple(p.get_mn_orders() for p in psf.polynomials)


def snapshot(psf):
    d = {}
    for a in PUBLIC:
        v = getattr(psf, a)
        d[a] = (type(v).__name__, np.array(v).tolist()) if isinstance(v, np.ndarray) else v
    d["orders"] = orders(psf); d["kernel"] = (psf.kernel.shape, psf.kernel.tobytes())
    return d


def close(a, b):
    return abs(a - b) <= 1e-14*max(abs(a), abs(b))


class Model:
    def __init__(self, terms, single):
        self.terms, self.single = terms, single
        self.NA = self.wl = self.px = None; self.coeff = None
        self.size = None; self.n_r = self.n_phi = None; self.physical = False


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def make(terms, single, kind):
    from zernpy import ZernPol, ZernPSF
    pols = [ZernPol(m=m, n=n) for m, n in terms]
    return ZernPSF(pols[0] if single and kind == 0 else (list, tuple)[kind % 2](pols))


def check_state(ctx, psf, mod, where):
    if mod.physical:
        ctx.ok((psf.NA, psf.wavelength, psf.pixel_size) == (mod.NA, mod.wl, mod.px), "stored values are the last accepted ones",
               got=(psf.NA, psf.wavelength, psf.pixel_size), want=(mod.NA, mod.wl, mod.px), after=where)
        if mod.single:
            ctx.ok(psf.expansion_coeff == mod.coeff[0], "stored coefficients are the last accepted ones", got=psf.expansion_coeff, want=mod.coeff[0], after=where)
        else:
            ctx.ok(np.array_equal(psf.coefficients, mod.coeff), "stored coefficients are the last accepted ones", got=psf.coefficients, want=mod.coeff, after=where)
    if mod.single:
        ctx.ok(close(psf.alpha, psf.expansion_coeff/psf.wavelength), "relative amplitudes are consistent", got=psf.alpha, after=where)
    elif mod.physical:
        ctx.ok(np.shape(psf.amplitudes) == (len(mod.terms),) and all(close(a, c/psf.wavelength) for a, c in zip(psf.amplitudes, psf.coefficients)),
               "relative amplitudes are consistent", got=psf.amplitudes, after=where)
    ctx.ok(close(psf.k, 2*pi/psf.wavelength), "the wave number is consistent", got=psf.k, wavelength=psf.wavelength, after=where)
    ctx.ok(close(psf.pixel_size_nyquist, 0.25*psf.wavelength/psf.NA), "the Nyquist pixel size is consistent", got=psf.pixel_size_nyquist, after=where)
    if mod.n_r is not None:
        ctx.ok((psf.n_int_r_points, psf.n_int_phi_points) == (mod.n_r, mod.n_phi), "stored integration points are the last accepted ones", after=where,
               got=(psf.n_int_r_points, psf.n_int_phi_points), want=(mod.n_r, mod.n_phi))
    s = psf.kernel_size
    ctx.ok(isinstance(s, (int, np.integer)) and s % 2 == 1, "the kernel size is an odd integer", got=s, after=where)
    if mod.size is not None:
        ctx.ok(s == mod.size, "the kernel size is the last specified or estimated one", got=s, want=mod.size, after=where)
    ctx.ok(orders(psf) == (mod.terms[0] if mod.single else tuple(mod.terms)), "the polynomials are unchanged", got=orders(psf), want=mod.terms, after=where)


def number(rng, x):
    """The same number as another numeric type, if it has one."""
    k = int(rng.integers(0, 5))
    if k == 0:
        return np.float64(x)
    if k == 1 and float(x).is_integer():
        return int(x)
    return float(x)


def valid_physical(rng, count):
    kind = int(rng.integers(0, 5))
    if kind == 0:
        wl, NA = float(rng.choice([0.5, 1.0, 0.25, 512.0])), float(rng.choice([0.5, 1.0, 0.25])); px = 0.25*wl/NA  # exactly the limit
    else:
        NA = float(rng.choice([1.7, float(rng.uniform(0.02, 1.7)), float(rng.uniform(0.3, 1.7)), 1e-2, 1.0]))
        wl = float(rng.choice([float(rng.uniform(0.2, 2)), float(rng.uniform(300, 900)), 1.0, 5e-7])); px = 0.25*wl/NA*float(rng.choice([0.98, rng.uniform(0.05, 0.999), 1 - 1e-9]))
    coeffs = [float(x) for x in rng.uniform(-1, 1, count)*wl*float(rng.choice([0.05, 0.3, 0.6, 1.0, 3.0, 12.0]))]
    if rng.random() < 0.15:
        coeffs[int(rng.integers(count))] = 0.0
    return NA, wl, px, coeffs


def invalid_physical(rng, NA, wl, px, coeffs, single):
    """One deviation from valid properties."""
    kinds = ["NA0", "NAneg", "NAbig", "NAabove", "wl0", "wlneg", "px0", "pxneg", "pxbig", "pxabove", "nan NA", "nan wl", "nan px", "inf wl", "nan coeff", "inf coeff", "type", "type", "count", "count", "scalar"]
    kind = str(rng.choice(kinds))
    if kind == "NA0": NA = [0.0, -0.0, 0][int(rng.integers(3))]
    elif kind == "NAneg": NA = -NA
    elif kind == "NAbig": NA = float(rng.choice([1.71, 2.0, 17.0, 100]))
    elif kind == "NAabove": NA = float(np.nextafter(1.7, 2)); px = px*1e-3
    elif kind == "wl0": wl = [0.0, 0][int(rng.integers(2))]
    elif kind == "wlneg": wl = -wl
    elif kind == "px0": px = [0.0, -0.0, 0][int(rng.integers(3))]
    elif kind == "pxneg": px = -px
    elif kind == "pxbig": px = 0.25*wl/NA*float(rng.choice([1.01, 1.22, 1.5, 2.0, 100.0]))
    elif kind == "pxabove": px = 0.25*wl/NA*(1 + 1e-8)
    elif kind == "nan NA": NA = float("nan")
    elif kind == "nan wl": wl = float("nan")
    elif kind == "nan px": px = float("nan")
    elif kind == "inf wl": wl = float("inf")
    elif kind in ("nan coeff", "inf coeff"): coeffs[int(rng.integers(len(coeffs)))] = float("nan") if kind == "nan coeff" else float(rng.choice([np.inf, -np.inf]))
    elif kind == "type":
        foreign = [None, 0.5j, object(), [None], "x"][int(rng.integers(5))]; which = int(rng.integers(4))
        if which == 0: NA = foreign
        elif which == 1: wl = foreign
        elif which == 2: px = foreign
        else: coeffs[int(rng.integers(len(coeffs)))] = foreign
    elif kind == "scalar" and not single: coeffs = coeffs[0]
    else:
        kind = "count"
        n = len(coeffs); m = int(rng.choice([x for x in (0, 1, 2, 3, 4, n + 1, n - 1) if x != n and x >= 0]))
        coeffs = [0.1*wl]*m
    return kind, NA, wl, px, coeffs


def form(rng, coeffs, single):
    """Coefficients as the user may pass them, and the values kept for the later comparison."""
    if not isinstance(coeffs, list):
        return coeffs
    k = int(rng.integers(0, 4))
    if single and len(coeffs) == 1 and k == 0:
        return number(rng, coeffs[0]) if isinstance(coeffs[0], (int, float)) else coeffs[0]
    if k == 2 and not all(isinstance(x, (int, float)) for x in coeffs):
        return np.array(coeffs, dtype=object) if rng.random() < 0.5 else {i: x for i, x in enumerate(coeffs)}.values()
    return np.array(coeffs, dtype=float) if k == 2 else tuple(coeffs) if k == 1 else list(coeffs)


def history_of(ctx, item):
    label, histories, length = item
    rng = ctx.rng("history", label)
    for h in range(histories):
        single = bool(rng.integers(2)); count = 1 if single else int(rng.choice([2, 3, 5]))
        table = o.osa_table(9)
        terms = [table[i] for i in rng.choice(len(table), count, replace=False)]
        kind = int(rng.integers(0, 3)); psf = make(terms, single, kind); mod = Model(terms, single); log = []; used = None
        check_state(ctx, psf, mod, "init")
        for step in range(length):
            action = str(rng.choice(["physical", "physical", "bad physical", "bad physical", "calc", "calc", "bad calc", "bad calc", "kernel"]))
            before = snapshot(psf)
            NA, wl, px, coeffs = valid_physical(rng, count)
            if action == "physical":
                again = used is not None and rng.random() < 0.35  # the same values again: the size is estimated anew
                if again:
                    NA, wl, px, coeffs = used; ctx.event("accepted properties set again to the same values")
                used = (NA, wl, px, coeffs); passed = form(rng, coeffs, single); args = (number(rng, NA), number(rng, wl), passed, number(rng, px))
                log.append((action, args))
                ctx.case((label, h, step), nontrivial=step > 0, terms=terms, call=str(log[-1])[:300])
                with ctx.guard("valid physical properties are accepted"):
                    quiet(lambda: psf.set_physical_props(*args))
                    mod.NA, mod.wl, mod.px, mod.coeff, mod.physical = NA, wl, px, coeffs, True
                    fresh = make(terms, single, kind)
                    quiet(lambda: fresh.set_physical_props(NA, wl, coeffs[0] if single else coeffs, px))
                    ctx.ok(psf.kernel_size == fresh.kernel_size and psf.kernel_size >= 1, "the estimated kernel size replaces the previous one",
                           got=psf.kernel_size, want=fresh.kernel_size)
                    mod.size = fresh.kernel_size
                    if isinstance(passed, list):
                        passed.append(1.0); passed[0] = 77.0
                    elif isinstance(passed, np.ndarray):
                        passed[:] = 77.0
                ctx.event("accepted physical properties")
            elif action == "bad physical":
                kindb, NA, wl, px, coeffs = invalid_physical(rng, NA, wl, px, coeffs, single)
                args = (NA, wl, form(rng, coeffs, single), px); log.append((action, kindb, args))
                ctx.case((label, h, step), terms=terms, call=str(log[-1])[:300])
                ctx.raises(ValueError if kindb != "type" else Exception, lambda: quiet(lambda: psf.set_physical_props(*args)),
                           "invalid physical properties are rejected with ValueError" if kindb != "type" else "foreign types are rejected", kind=kindb, args=str(args)[:300])
                after = snapshot(psf); changed = [a for a in before if before[a] != after[a]]
                ctx.ok(not changed, "a rejected call leaves all stored properties unchanged", changed=changed, kind=kindb)
                ctx.event(f"rejected: {kindb}")
            elif action == "calc":
                size = int(rng.choice([3, 4, 5, 8, 19, 20, 50, 101])); n_r = int(rng.choice([20, 21, 100, 320, 600])); n_phi = int(rng.choice([36, 37, 200, 301, 500]))
                log.append((action, size, n_r, n_phi))
                ctx.case((label, h, step), nontrivial=step > 0, terms=terms, call=str(log[-1]))
                with ctx.guard("valid calculation properties are accepted"):
                    if step % 2:
                        quiet(lambda: psf.set_calculation_props(size, n_r, n_phi))
                    else:
                        quiet(lambda: psf.set_calculation_props(kernel_size=np.int64(size), n_integration_points_r=np.int64(n_r), n_integration_points_phi=n_phi))
                    mod.size = size + 1 - size % 2; mod.n_r, mod.n_phi = n_r, n_phi
                ctx.event("accepted calculation properties")
            elif action == "bad calc":
                good = [int(rng.choice([3, 9, 40])), int(rng.choice([20, 100])), int(rng.choice([36, 120]))]
                for i in rng.choice(3, int(rng.choice([1, 1, 2])), replace=False):
                    good[i] = int(rng.choice([[2, 1, 0, -1, -3], [19, 18, 0, -20, 3], [35, 34, 0, -36, 20]][i]))
                log.append((action, good))
                ctx.case((label, h, step), terms=terms, call=str(log[-1]))
                ctx.raises(ValueError, lambda: quiet(lambda: psf.set_calculation_props(*good)), "invalid calculation properties are rejected with ValueError")
                after = snapshot(psf); changed = [a for a in before if before[a] != after[a]]
                ctx.ok(not changed, "a rejected call leaves all stored properties unchanged", changed=changed, args=good)
                ctx.event("rejected: calculation properties")
            elif mod.physical:  # the calculation uses the stored properties
                ctx.case((label, h, step), terms=terms, call="kernel")
                with ctx.guard("kernel is calculated"):
                    quiet(lambda: psf.set_calculation_props(3, 20, 36)); mod.size, mod.n_r, mod.n_phi = 3, 20, 36
                    K = calculate(psf, accelerated=False, suppress_warnings=True, normalized=False)
                    fresh = make(terms, single, kind)
                    quiet(lambda: fresh.set_physical_props(mod.NA, mod.wl, mod.coeff[0] if single else mod.coeff, mod.px)); quiet(lambda: fresh.set_calculation_props(3, 20, 36))
                    ctx.ok(np.array_equal(K, calculate(fresh, accelerated=False, suppress_warnings=True, normalized=False)),
                           "the calculation uses the last accepted properties", log=log[-6:])
                    ctx.event("kernels compared with those of a fresh object")
            check_state(ctx, psf, mod, log[-1] if log else None)
        ctx.event("histories")


def histories(ctx):
    ctx.pmap(history_of, [(i, ctx.scale(12, 200), ctx.scale(25, 40)) for i in range(8)])


def limits(ctx):
    """All border values of each single property."""
    for single in (True, False):
        terms = [(1, 3)] if single else [(1, 3), (0, 2)]
        c = 0.05 if single else [0.05, -0.1]
        for name, value, good in (
                [("NA", v, True) for v in (1.7, 1.0, 1e-3, 1)] + [("NA", v, False) for v in (0.0, 0, -1e-9, -1.0, np.nextafter(1.7, 2), 1.70001, 3)]
                + [("wl", v, True) for v in (0.5, 1, 700.0)] + [("wl", v, False) for v in (0.0, 0, -0.5, -1e-12, float("nan"), float("inf"))]
                + [("px", v, True) for v in (0.125, 0.1, 1e-3)] + [("px", v, False) for v in (0.0, 0, -0.1, 0.1250001, 0.15, 0.1524, 1.0, float("nan"))]):
            args = dict(NA=1.0, wavelength=0.5, expansion_coeff=c, pixel_physical_size=0.125)
            if name == "NA": args["NA"] = value; args["pixel_physical_size"] = 0.01
            elif name == "wl": args["wavelength"] = value; args["pixel_physical_size"] = 0.125 if not value or value != value or value < 0 or value == np.inf else 0.25*value
            else: args["pixel_physical_size"] = value
            ctx.case((single, name, repr(value)), **args)
            psf = make(terms, single, 0)
            quiet(lambda: psf.set_physical_props(0.5, 0.6, c, 0.2)); before = snapshot(psf)
            if good:
                with ctx.guard("valid physical properties are accepted"):
                    quiet(lambda: psf.set_physical_props(**args))
                    ctx.ok(psf.NA == args["NA"] and psf.pixel_size == args["pixel_physical_size"] and psf.wavelength == args["wavelength"], "stored values are the last accepted ones")
            else:
                ctx.raises(ValueError, lambda: quiet(lambda: psf.set_physical_props(**args)), "invalid physical properties are rejected with ValueError", name=name, value=value)
                after = snapshot(psf)
                ctx.ok(before == after, "a rejected call leaves all stored properties unchanged", name=name, value=value, changed=[a for a in before if before[a] != after[a]])
        for size in list(range(-2, 12)) + [60, 61, 120]:
            for n_r, n_phi in ((20, 36), (19, 36), (20, 35), (400, 401), (21, 37), (501, 401)):
                good = size >= 3 and n_r >= 20 and n_phi >= 36
                ctx.case((single, size, n_r, n_phi)); psf = make(terms, single, 0)
                for physical in (False, True):
                    if physical:
                        quiet(lambda: psf.set_physical_props(0.5, 0.6, c, 0.2))
                    before = snapshot(psf)
                    if good:
                        with ctx.guard("valid calculation properties are accepted"):
                            quiet(lambda: psf.set_calculation_props(size, n_r, n_phi))
                            ctx.ok((psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points) == (size + 1 - size % 2, n_r, n_phi),
                                   "an even kernel size is increased by one, others are stored as they are", got=(psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points))
                    else:
                        ctx.raises(ValueError, lambda: quiet(lambda: psf.set_calculation_props(size, n_r, n_phi)), "invalid calculation properties are rejected with ValueError",
                                   size=size, n_r=n_r, n_phi=n_phi)
                        ctx.ok(before == snapshot(psf), "a rejected call leaves all stored properties unchanged")
        import fractions
        for at in range(3):   # numbers which aren't whole, whole ones of other types
            for value in [21.5, 40.5, 100.000001, float("nan"), float("inf"), np.float64(50.25), np.float32(41.5), fractions.Fraction(81, 2)]:
                args = [21, 40, 60]; args[at] = value; psf = make(terms, single, 0); quiet(lambda: psf.set_physical_props(0.5, 0.6, c, 0.2)); before = snapshot(psf)
                ctx.case((single, "not whole", at, repr(value)))
                ctx.raises(ValueError, lambda: quiet(lambda: psf.set_calculation_props(*args)), "invalid calculation properties are rejected with ValueError", args=args)
                ctx.ok(before == snapshot(psf), "a rejected call leaves all stored properties unchanged", args=args); ctx.event("numbers which aren't whole")
            for value in [np.int16(41), np.uint8(41), np.float64(41), 41.0, np.int64(41)]:
                args = [21, 40, 60]; args[at] = value; psf = make(terms, single, 0); ctx.case((single, "whole", at, repr(value)))
                with ctx.guard("valid calculation properties are accepted"):
                    quiet(lambda: psf.set_calculation_props(*args)); got = (psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points)
                    ctx.ok(got == tuple(args) and all(isinstance(x, int) for x in got), "whole numbers of all types are stored as integers", args=args, got=got)
    for count in (2, 3, 4):
        for given in range(0, 6):
            terms = o.osa_table(5)[3:3 + count]; psf = make(terms, False, 1)
            for cls in (list, tuple, np.array):
                ctx.case((count, given, cls.__name__)); before = snapshot(psf)
                call = lambda: quiet(lambda: psf.set_physical_props(0.9, 0.5, cls([0.1]*given), 0.1))
                if given == count:
                    with ctx.guard("valid physical properties are accepted"):
                        call(); ctx.ok(np.shape(psf.amplitudes) == (count,), "relative amplitudes are consistent")
                else:
                    ctx.raises(ValueError, call, "invalid physical properties are rejected with ValueError", count=count, given=given)
                    ctx.ok(before == snapshot(psf), "a rejected call leaves all stored properties unchanged", count=count, given=given)


SECTIONS = [("limits", limits), ("histories", histories)]
