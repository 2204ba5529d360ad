"""C12: the ways of calculating a kernel give the same kernel."""
import json
import shutil
import subprocess
import sys
import tempfile
import warnings
import numpy as np
from .. import oracle as o
from ..core import SRC
from .c11 import physical, amplitudes, polynomial, calculate

LEVEL = "exploration"
RULE = ("A case is one setting of polynomial(s), amplitude(s), optics and integration, calculated in several ways; non-trivial if at least "
        "two different calculation ways were compared for a polynomial other than the piston; distinct by the settings.")
ASSUMPTIONS = ["Kernels of different ways must agree to 1e-9 of the diffraction-limited maximum (rounding of sums of some 10^4 terms of modulus 1).",
               "The piston is calculated by the closed form without acceleration: there the allowed difference is 1.5 times the error of the "
               "documented integration rules, computed independently."]
TOL = 1e-9


def points(rng):
    return int(rng.choice([20, 21, 25, 37])), int(rng.choice([36, 37, 38, 41, 50, 60]))


def new(pols, coeffs, NA, wl, px, size, n_r, n_phi):
    from zernpy import ZernPSF
    psf = ZernPSF(pols)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        psf.set_physical_props(NA=NA, wavelength=wl, expansion_coeff=coeffs, pixel_physical_size=px)
        psf.set_calculation_props(kernel_size=size, n_integration_points_r=n_r, n_integration_points_phi=n_phi)
    return psf


def agree(ctx, A, B, rule, tol=TOL, **d):
    A = np.asarray(A); B = np.asarray(B)
    if not ctx.ok(A.shape == B.shape, "kernels have the same size", got=A.shape, want=B.shape, pair=rule, **d):
        return
    err = np.abs(A - B)
    ctx.ok(np.all(np.isfinite(A)) and err.max() <= tol, rule, error=float(err.max()), at=np.unravel_index(err.argmax(), err.shape),
           first=A.ravel()[:5], second=B.ravel()[:5], tol=tol, **d)


def piston_tol(NA, wl, px, size, n_r, n_phi, normalized):
    D = o.psf_kernel_discrete([((0, 0), 0.0)], NA, wl, px, size, n_r, n_phi)
    b = 1.5*float(np.max(np.abs(D - o.airy_kernel(NA, wl, px, size)))) + 1e-9
    return 2.2*b if normalized else b


def supported(m, n):
    return n <= 10 or abs(m) in (n, n - 2)


def single_of(ctx, item):
    """Plain / accelerated / member of a set with zero amplitudes, for each polynomial in the list."""
    from zernpy import ZernPol
    label, terms = item
    rng = ctx.rng("single", label)
    for m, n in terms:
        NA, wl, px = physical(rng); size = int(rng.choice([3, 3, 3, 5])); n_r, n_phi = points(rng)
        a = amplitudes(rng, [(m, n)])[0]; a = a if abs(a) > 1e-3 else 0.3
        c = float(a*wl); norm = bool(rng.integers(2)); z = ZernPol(m=m, n=n)
        cfg = dict(m=m, n=n, alpha=float(a), NA=NA, wavelength=wl, px=px, size=size, n_r=n_r, n_phi=n_phi, normalized=norm)
        ctx.case(tuple(cfg.values()), nontrivial=n > 0, **cfg)
        with ctx.guard("kernels are calculated"):
            P = calculate(new(z, c, NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=False).copy()
            tol = TOL if n > 0 else piston_tol(NA, wl, px, size, n_r, n_phi, norm)
            agree(ctx, calculate(new(z, c, NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=True), P, "accelerated = plain", tol=tol)
            ctx.event("accelerated/plain pairs")
            one = new([z], [c], NA, wl, px, size, n_r, n_phi)
            agree(ctx, calculate(one, normalized=norm, accelerated=bool(rng.integers(2))), P, "set of one polynomial = the polynomial", tol=max(TOL, tol))
            # the same polynomial among others with zero amplitudes
            others = [t for t in (polynomial(rng, True) for _ in range(8)) if t != (m, n)]
            o1 = others[0]; pos = int(rng.integers(2))
            pols = [ZernPol(m=o1[0], n=o1[1])]; pols.insert(pos, z); cs = [0.0]; cs.insert(pos, c)
            seq = [list, tuple][int(rng.integers(2))]
            agree(ctx, calculate(new(seq(pols), seq(cs), NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=True), P,
                  "accelerated set with one non-zero amplitude = the polynomial", tol=tol)
            many = [z]; mc = [c]
            for t in dict.fromkeys(others[:int(rng.integers(1, 4))]):
                k = int(rng.integers(0, len(many) + 1)); many.insert(k, ZernPol(m=t[0], n=t[1])); mc.insert(k, 0.0)
            agree(ctx, calculate(new(many, np.array(mc), NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=False), P,
                  "plain set with one non-zero amplitude = the polynomial", tol=tol)


def all_supported():
    low = [t for t in o.osa_table(10)]
    high = [(s*m, n) for n in range(11, 20) for m in (n, n - 2) for s in (1, -1)]
    return low, high


def single(ctx):
    compile_now()
    low, high = all_supported()
    rng = ctx.rng("order")
    if ctx.thorough:
        terms = (low + high)*6 + [(s*m, n) for n in range(20, 31) for m in (n, n - 2) for s in (1, -1)]
    else:
        terms = low + [high[i] for i in rng.permutation(len(high))[:14]]
    terms = [terms[i] for i in rng.permutation(len(terms))]
    ctx.pmap(single_of, [(i, terms[i::8]) for i in range(8)])


def compile_now():
    """Compile in this process: the forked workers inherit the compiled code."""
    from zernpy import ZernPol
    for k in (1, 2, 3):
        pols = [ZernPol(osa=i + 1) for i in range(k)]
        calculate(new(pols if k > 1 else pols[0], [0.1]*k if k > 1 else 0.1, 0.5, 0.5, 0.1, 3, 20, 36), accelerated=True)


def sets_of(ctx, item):
    from zernpy import ZernPol
    label, count = item
    rng = ctx.rng("sets", label)
    for k in range(count):
        members = 2 + (label + k) % 2; terms = []
        while len(terms) < members:
            t = polynomial(rng, True) if rng.random() < 0.93 else (0, 0)
            if t not in terms:
                terms.append(t)
        a = amplitudes(rng, terms)
        if rng.random() < 0.4:  # amplitudes of different magnitudes, also negligible ones
            a = a*10.0**rng.uniform(-5, 0, members)
        NA, wl, px = physical(rng); size = int(rng.choice([3, 3, 5])); n_r, n_phi = points(rng)
        cs = [float(x*wl) for x in a]; norm = bool(rng.integers(2)); pols = [ZernPol(m=m, n=n) for m, n in terms]
        cfg = dict(terms=terms, alphas=a.tolist(), NA=NA, wavelength=wl, px=px, size=size, n_r=n_r, n_phi=n_phi, normalized=norm)
        ctx.case(tuple(map(str, cfg.values())), **cfg)
        with ctx.guard("kernels are calculated"):
            P = calculate(new(pols, cs, NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=False).copy()
            A = calculate(new(tuple(pols), np.array(cs), NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=None)
            agree(ctx, A, P, "accelerated set = plain set")
            order = rng.permutation(members)
            B = calculate(new([pols[i] for i in order], [cs[i] for i in order], NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=bool(k % 2))
            agree(ctx, B, P, "the order of the polynomials in the set doesn't matter")
            ctx.event("accelerated/plain pairs")


def sets(ctx):
    ctx.pmap(sets_of, [(i, ctx.scale(5, 70)) for i in range(8)])


def larger_of(ctx, item):
    """Kernels of 11 to 25 pixels, also of even requested sizes, calculated in all ways."""
    from zernpy import ZernPol
    k = item
    rng = ctx.rng("larger", k)
    members = 1 + k % 3; terms = []
    while len(terms) < members:
        t = polynomial(rng, True, 8)
        if t not in terms and supported(*t):
            terms.append(t)
    a = amplitudes(rng, terms); NA, wl, px = physical(rng); size = int(rng.choice([11, 12, 15, 16, 21, 25])) if members == 1 else int(rng.choice([9, 11, 14]))
    n_r, n_phi = int(rng.choice([20, 30, 53])), int(rng.choice([36, 41, 48, 70])); norm = bool(rng.integers(2))
    pols = [ZernPol(m=m, n=n) for m, n in terms]; cs = [float(x*wl) for x in a]
    cfg = dict(terms=terms, alphas=a.tolist(), NA=NA, wavelength=wl, px=px, size=size, n_r=n_r, n_phi=n_phi, normalized=norm)
    ctx.case(tuple(map(str, cfg.values())), **cfg)
    with ctx.guard("kernels are calculated"):
        P = calculate(new(pols if members > 1 else pols[0], cs if members > 1 else cs[0], NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=False).copy()
        ctx.ok(P.shape == (size + 1 - size % 2,)*2, "kernel has the requested odd size", got=P.shape, want=size)
        A = calculate(new(pols if members > 1 else pols[0], cs if members > 1 else cs[0], NA, wl, px, size, n_r, n_phi), normalized=norm, accelerated=True)
        agree(ctx, A, P, "accelerated kernel of a larger size = plain kernel", size=size, terms=terms)
        if members == 1:
            psf = new(pols[0], cs[0], NA, wl, px, 5, n_r, n_phi)
            S = psf.get_kernel_parallel(normalize_values=False); P5 = calculate(new(pols[0], cs[0], NA, wl, px, 5, n_r, n_phi), normalized=False, accelerated=False)
            agree(ctx, S, P5, "kernel without initialized workers = plain kernel", size=5, terms=terms)
        ctx.event("accelerated/plain pairs")


def wide_of(ctx, item):
    """Accelerated kernels of 41 to 75 pixels with up to 200 integration points: some pixels against single points."""
    from zernpy import ZernPol
    k = item; rng = ctx.rng("wide", k); members = 1 + int(k % 4 == 3); terms = []
    while len(terms) < members:
        t = polynomial(rng, True, 6)
        if t not in terms and supported(*t):
            terms.append(t)
    a = amplitudes(rng, terms)*0.5; NA, wl, px = physical(rng); size = [41, 47, 51, 61, 75][k % 5]; n_r = 20
    n_phi = [101, 104, 60, 110, 101, 120, 104][k % 7] if members == 1 else [104, 41, 102][k//4 % 3]
    if k % 6 == 5:
        n_r, n_phi = int(rng.choice([101, 150])), 40
    pols = [ZernPol(m=m, n=n) for m, n in terms]; cs = [float(x*wl) for x in a]; one = (pols[0], cs[0]) if members == 1 else (pols, cs)
    px = float(0.25*wl/NA*rng.uniform(0.7, 0.99)); d = dict(terms=terms, alphas=a.tolist(), NA=NA, wavelength=wl, px=px, size=size, n_r=n_r, n_phi=n_phi); ctx.case(tuple(map(str, d.values())), **d)
    with ctx.guard("kernels are calculated"):
        A = calculate(new(one[0], one[1], NA, wl, px, size, n_r, n_phi), normalized=False, accelerated=True)
        ctx.ok(A.shape == (size, size), "kernel has the requested odd size", got=A.shape, want=size); c = size//2; ctx.event("wide accelerated kernels")
        if A.shape != (size, size):
            return
        small = new(one[0], one[1], NA, wl, px, 5, n_r, n_phi)
        if members > 1:  # single points are for one polynomial only
            agree(ctx, A[c - 2:c + 3, c - 2:c + 3], calculate(small, normalized=False, accelerated=False), "the centre of a wide accelerated kernel = plain kernel", **d); return
        at = [(i, int(rng.choice([0, c, size - 1, int(rng.integers(size))]))) for i in [0, c, size - 1] + [int(x) for x in rng.integers(0, size, 3)]]
        got = [A[x] for x in at]; want = [small.get_psf_point_r_parallel(2*np.pi/wl*NA*px*np.hypot(i - c, j - c), np.arctan2(i - c, j - c) + np.pi) for i, j in at]
        ctx.event("pixels of wide accelerated kernels", len(at))
        agree(ctx, got, want, "pixels of a wide accelerated kernel = single points", pixels=at, **d)
        small.deinitialize_workers()


def larger(ctx):
    ctx.pmap(larger_of, list(range(ctx.scale(12, 90))))
    ctx.pmap(wide_of, list(range(ctx.scale(21, 90))))


def flags(ctx):
    """One object switched between the ways, normalizations and settings: each kernel belongs to its own call."""
    from zernpy import ZernPol
    rng = ctx.rng("flags")
    for k in range(ctx.scale(6, 40)):
        terms = [(-1, 3), (2, 2)] if k % 2 else [(int(rng.choice([-2, 0, 2])), 4)]
        NA, wl, px = physical(rng); n_r, n_phi = points(rng)
        a = amplitudes(rng, terms); cs = [float(x*wl) for x in a]
        pols = [ZernPol(m=m, n=n) for m, n in terms]
        ctx.case((k, str(terms), str(cs)))
        with ctx.guard("kernels are calculated"):
            psf = new(pols if len(pols) > 1 else pols[0], cs if len(pols) > 1 else cs[0], NA, wl, px, 3, n_r, n_phi)
            ref = calculate(psf, normalized=False, accelerated=False).copy()
            for step in range(6):
                acc = [True, False, None][int(rng.integers(3))]; norm = bool(rng.integers(2))
                K = calculate(psf, normalized=norm, accelerated=acc, suppress_warnings=bool(rng.integers(2)), verbose_info=bool(rng.integers(2)))
                agree(ctx, K, ref/ref.max() if norm else ref, "recalculation in another way gives the same kernel", accelerated=acc, normalized=norm)
                agree(ctx, psf.kernel, K, "stored kernel = returned kernel")


WITHOUT_NUMBA = """
import sys, json, warnings
sys.modules["numba"] = None; sys.modules["joblib"] = None  # as if not installed
sys.path.insert(0, %r)
import numpy as np
from zernpy import ZernPol, ZernPSF, force_get_psf_compilation
import io, contextlib
out = []
for job in json.loads(sys.stdin.read()):
    pols = [ZernPol(m=m, n=n) for m, n in job["terms"]]; cs = job["coeffs"]; single = len(pols) == 1
    for acc in (True, None, False):
        p = ZernPSF(pols[0] if single else pols)
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("always")
            if acc and job["compile"]:
                compiled = force_get_psf_compilation(); job["compiled"] = compiled is None and len(w) == 1
            p.set_physical_props(job["NA"], job["wl"], cs[0] if single else cs, job["px"]); p.set_calculation_props(job["size"], job["n_r"], job["n_phi"]); count = len(w)
            K = p.calculate_psf_kernel(normalized=job["normalized"], accelerated=acc, suppress_warnings=job["suppress"], verbose_info=job["verbose"])
        out.append([acc, K.tolist(), [str(x.message) for x in w[count:]], job.get("compiled", True), p.kernel is K])
print("RESULT" + json.dumps(out))
"""


def long_of(ctx, item):
    """Sets of many polynomials with amplitudes of different magnitudes, plain and accelerated."""
    from zernpy import ZernPol
    label, count = item; rng = ctx.rng("long sets", label); table = [x for x in o.osa_table(10) if x != (0, 0)]
    for k in range(count):
        members = int(rng.choice([9, 12, 17, 19, 26, 35, 48])); terms = [table[int(i)] for i in rng.choice(len(table), members, replace=False)]; NA, wl, px = physical(rng)
        a = 10.0**rng.uniform(-5, -1.5, members)*rng.choice([-1, 1], members); cs = [float(x*wl) for x in a]; pols = [ZernPol(m=m, n=n) for m, n in terms]; ctx.case(("long", label, k, str(terms)), nontrivial=True, terms=terms, alphas=a)
        with ctx.guard("kernels are calculated"):
            A, B = (calculate(new(pols, cs, NA, wl, px, 3, 20, 37), normalized=False, accelerated=acc) for acc in (False, True))
            agree(ctx, A, B, "accelerated = plain kernel of many polynomials", terms=terms); ctx.event("sets of more than 8 polynomials")
            if k % 2 == 0:
                order = rng.permutation(members); C = calculate(new([pols[i] for i in order], [cs[i] for i in order], NA, wl, px, 3, 20, 37), normalized=False, accelerated=bool(rng.integers(2)))
                agree(ctx, C, A, "the order of many polynomials doesn't matter", terms=terms)


def long_sets(ctx):
    compile_now(); ctx.pmap(long_of, [(i, ctx.scale(2, 20)) for i in range(8)])


def without_numba(ctx):
    """If numba isn't installed, the plain calculation replaces the accelerated one (requested or by default)."""
    from zernpy import ZernPol
    rng = ctx.rng("without numba"); jobs = []
    for k in range(ctx.scale(10, 60)):
        terms = [polynomial(rng, False, 8)] if k % 2 else [(0, 4), (1, 3), (-2, 2)][:int(rng.integers(2, 4))]
        NA, wl, px = physical(rng); n_r, n_phi = points(rng); a = amplitudes(rng, terms)
        jobs.append(dict(terms=[(int(m), int(n)) for m, n in terms], coeffs=[float(x*wl) for x in a], NA=float(NA), wl=float(wl), px=float(px), size=int(rng.choice([3, 5])), n_r=n_r, n_phi=n_phi, normalized=bool(rng.integers(2)),
                         suppress=bool(rng.integers(2)), verbose=bool(rng.integers(2)), compile=bool(rng.integers(2))))
    with ctx.guard("the package works without numba"):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", WITHOUT_NUMBA % str(SRC)], input=json.dumps(jobs), capture_output=True, text=True, timeout=400)
        lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
        if not ctx.ok(p.returncode == 0 and len(lines) == 1, "the package works without numba", code=p.returncode, error=p.stderr[-600:]):
            return
        out = json.loads(lines[0][6:])
        for i, (acc, K, warned, compiled, stored) in enumerate(out):
            job = jobs[i//3]; pols = [ZernPol(m=m, n=n) for m, n in job["terms"]]; single = len(pols) == 1
            ref = calculate(new(pols[0] if single else pols, job["coeffs"][0] if single else job["coeffs"], job["NA"], job["wl"], job["px"], job["size"], job["n_r"], job["n_phi"]), normalized=job["normalized"], accelerated=False)
            ctx.case(("without numba", i, str(job)), nontrivial=True, accelerated=acc, terms=job["terms"]); ctx.event("kernels without numba")
            agree(ctx, K, ref, "kernel without numba = plain kernel", accelerated=acc)
            if acc is True:
                ordinary = len(out[i + 2][2])  # of the plain calculation
                ctx.ok(len(warned) == ordinary + (0 if job["suppress"] else 1), "it's reported that a requested acceleration isn't possible", suppressed=job["suppress"], warned=warned, ordinary=ordinary)
            ctx.ok(compiled and stored, "the compilation is refused with a warning without numba, and kernels are stored", compiled=compiled, stored=stored)


def verbose_of(ctx, item):
    """The verbose calculation of kernels of any size is the silent one."""
    from zernpy import ZernPol
    size, kind = item; rng = ctx.rng("verbose", size, kind); NA, wl, px = physical(rng)
    terms = dict(single=[(1, 3)], piston=[(0, 0)], set=[(0, 2), (-1, 3)])[kind]; a = amplitudes(rng, terms); pols = [ZernPol(m=m, n=n) for m, n in terms]
    with ctx.guard("kernels are calculated"):
        for acc in ((False, True) if size < 22 else (False,)):
            ctx.case(("verbose", size, kind, acc), nontrivial=True, size=size, kind=kind); kernels = []
            for verbose in (True, False):
                psf = new(pols if kind == "set" else pols[0], [float(x*wl) for x in a] if kind == "set" else float(a[0]*wl), NA, wl, px, size, 20, 36)
                kernels.append(calculate(psf, normalized=False, accelerated=acc, verbose_info=verbose).copy())
            agree(ctx, kernels[0], kernels[1], "verbose kernel = silent kernel", tol=0.0, size=size, kind=kind, accelerated=acc); ctx.event("verbose kernels")


def verbose(ctx):
    compile_now()
    ctx.pmap(verbose_of, [(size, kind) for size in ([3, 9, 11, 13, 15, 17, 19, 27] if not ctx.thorough else range(3, 40, 2)) for kind in ("single", "piston", "set")])


def types_of(ctx, item):
    """Properties given as numbers of other types: the same kernels as for the Python numbers."""
    from zernpy import ZernPol
    label, count = item
    rng = ctx.rng("types", label)
    for k in range(count):
        while True:
            m, n = polynomial(rng, True, 6)
            if n > 0 and supported(m, n):
                break
        NA, wl, px = physical(rng); n_r, n_phi = points(rng); a = amplitudes(rng, [(m, n)])[0]; norm = bool(rng.integers(2)); size = int(rng.choice([3, 5, 7]))
        f = [np.float32, np.float16, np.float64][int(rng.integers(3))]
        whole = [np.uint8, np.int8, np.int16, np.uint16, np.int32, np.int64, np.uint64][int(rng.integers(7))]
        if np.iinfo(whole).max < n_phi:
            n_phi = int(rng.integers(36, 120))
        NA, wl, px = f(NA*0.97), f(wl), f(px*0.97); c = f(float(a)*float(wl))
        if k % 3 == 2:  # only integers or only real numbers are of other types
            NA, wl, px, c = float(NA), float(wl), float(px), float(c)
        cfg = dict(m=m, n=n, coefficient=float(c), NA=float(NA), wavelength=float(wl), px=float(px), size=size, n_r=n_r, n_phi=n_phi, normalized=norm, types=[f.__name__, whole.__name__])
        ctx.case(tuple(map(str, cfg.values())), **cfg)
        with ctx.guard("kernels are calculated"):
            pol = ZernPol(m=m, n=n)
            psf = new(pol, c, NA, wl, px, whole(size), whole(n_r), whole(n_phi))
            P = calculate(new(pol, float(c), float(NA), float(wl), float(px), size, n_r, n_phi), normalized=norm, accelerated=False).copy()
            agree(ctx, calculate(psf, normalized=norm, accelerated=False), P, "kernel of properties of other number types = kernel of the Python numbers")
            agree(ctx, calculate(psf, normalized=norm, accelerated=True), P, "accelerated kernel of properties of other number types = kernel of the Python numbers")
            agree(ctx, psf.get_kernel_parallel(normalize_values=norm), P, "parallel kernel of properties of other number types = kernel of the Python numbers")
        ctx.event("kernels of type " + f.__name__); ctx.event("points of type " + whole.__name__)


def types(ctx):
    compile_now()
    ctx.pmap(types_of, [(i, ctx.scale(4, 40)) for i in range(8)])


def parallel_of(ctx, item):
    from zernpy import ZernPol
    label, count = item
    rng = ctx.rng("parallel", label)
    for k in range(count):
        m, n = polynomial(rng, False, 8) if (k + label) % 6 != 3 else (0, 0)
        NA, wl, px = physical(rng); n_r, n_phi = points(rng); a = amplitudes(rng, [(m, n)])[0]; norm = bool(rng.integers(2))
        n_phi = int(rng.integers(36, 120)) if k % 2 else n_phi  # other numbers of jobs for the workers
        cfg = dict(m=m, n=n, alpha=float(a), NA=NA, wavelength=wl, px=px, n_r=n_r, n_phi=n_phi, normalized=norm)
        ctx.case(tuple(cfg.values()), nontrivial=n > 0, **cfg)
        with ctx.guard("kernels are calculated"):
            psf = new(ZernPol(m=m, n=n), float(a*wl), NA, wl, px, 3, n_r, n_phi)
            P = calculate(psf, normalized=norm, accelerated=False).copy()
            tol = TOL if n > 0 else piston_tol(NA, wl, px, 3, n_r, n_phi, norm)
            agree(ctx, psf.get_kernel_parallel(normalize_values=norm), P, "kernel without initialized workers = plain kernel", tol=tol)
            workers = 0
            for round_ in range(2):
                psf.initialize_parallel_workers()
                try:
                    agree(ctx, psf.get_kernel_parallel(normalize_values=norm), P, "kernel by parallel workers = plain kernel", tol=tol, round=round_)
                    ctx.event("kernels by worker processes" if n > 0 else "kernels of the piston")
                    if round_ == 0 and k % 2:  # other settings with the same workers
                        n_r2, n_phi2 = points(rng); a2 = float(rng.uniform(-0.5, 0.5))
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            psf.set_physical_props(NA, wl, a2*wl, px); psf.set_calculation_props(3, n_r2, n_phi2)
                        P = calculate(new(ZernPol(m=m, n=n), a2*wl, NA, wl, px, 3, n_r2, n_phi2), normalized=norm, accelerated=False).copy()
                        tol = TOL if n > 0 else piston_tol(NA, wl, px, 3, n_r2, n_phi2, norm)
                        agree(ctx, psf.get_kernel_parallel(normalize_values=norm), P, "kernel by the same workers after changed properties", tol=tol)
                finally:
                    psf.deinitialize_workers()
            agree(ctx, psf.get_kernel_parallel(normalize_values=norm), P, "kernel after releasing the workers = plain kernel", tol=tol)
            agree(ctx, psf.kernel, P, "stored kernel = returned kernel", tol=tol)


def parallel(ctx):
    ctx.pmap(parallel_of, [(i, ctx.scale(2, 16)) for i in range(8)], workers=4)


def same_point_of(ctx, item):
    """One point calculated again and again by the same workers, with one of the properties changed in between."""
    from zernpy import ZernPol
    label, count = item; rng = ctx.rng("same point", label)
    for k in range(count):
        m, n = polynomial(rng, False, 6); (NA, wl, px), a = physical(rng), float(rng.uniform(-0.6, 0.6)); n_r, n_phi = 20, int(rng.integers(36, 60))
        r, t = float(rng.uniform(0, 8)), float(rng.uniform(0, 2*np.pi)); tmp = tempfile.mkdtemp(prefix="zmon12"); psf = new(ZernPol(m=m, n=n), a*wl, NA, wl, px, 3, n_r, n_phi)
        ctx.case(("same point", label, k, m, n, a, r, t), nontrivial=True, m=m, n=n, r=r, theta=t)
        try:
            psf.initialize_parallel_workers()
            for change in ["nothing"] + [str(c) for c in rng.permutation(["radial points", "angular points", "amplitude", "polynomial", "wavelength", "point", "kernel", "nothing", "radial points"])]:
                with ctx.guard("points are calculated"), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if change == "radial points":
                        n_r = int(rng.integers(20, 90)); psf.set_calculation_props(3, n_r, n_phi)
                    elif change == "angular points":
                        n_phi = int(rng.integers(36, 90)); psf.set_calculation_props(3, n_r, n_phi)
                    elif change == "amplitude":
                        a = -a if rng.random() < 0.5 else float(rng.uniform(-0.6, 0.6)); psf.set_physical_props(NA, wl, a*wl, px); psf.set_calculation_props(3, n_r, n_phi)
                    elif change == "wavelength":
                        wl, px = 1.5*wl, 1.5*px; psf.set_physical_props(NA, wl, a*wl, px); psf.set_calculation_props(3, n_r, n_phi)
                    elif change == "point":
                        r, t = (r, float(rng.uniform(0, 2*np.pi))) if rng.random() < 0.5 else (float(rng.uniform(0, 8)), t)
                    elif change == "polynomial":  # with all other properties as they are
                        (m, n) = (-m, n) if m and rng.random() < 0.5 else polynomial(rng, False, 6)
                        q = new(ZernPol(m=m, n=n), a*wl, NA, wl, px, 3, n_r, n_phi); q.save_json(tmp, overwrite=True); psf.read_json(q.json_file_path)
                    elif change == "kernel":
                        psf.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
                    got = psf.get_psf_point_r_parallel(r, t); fresh = new(ZernPol(m=m, n=n), a*wl, NA, wl, px, 3, n_r, n_phi); want = fresh.get_psf_point_r_parallel(r, t)
                    ctx.event("points by the same workers after a change"); ctx.event("changed: " + change)
                    ctx.ok(abs(got - want) <= 1e-9, "the point by the workers is that of the current properties", changed=change, got=got, want=want, m=m, n=n, n_r=n_r, n_phi=n_phi, r=r, theta=t)
        finally:
            psf.deinitialize_workers(); shutil.rmtree(tmp, ignore_errors=True)


def same_point(ctx):
    ctx.pmap(same_point_of, [(i, ctx.scale(2, 20)) for i in range(4)], workers=4)


def switch_workers(ctx):
    """Two objects with their own workers at the same time."""
    from zernpy import ZernPol
    rng = ctx.rng("two")
    for k in range(ctx.scale(2, 8)):
        NA, wl, px = physical(rng); specs = [(int(rng.choice([-3, -1, 1, 3])), 3, 0.3), (int(rng.choice([-2, 0, 2])), 4, -0.2)]
        ctx.case((k, str(specs), NA, wl, px))
        with ctx.guard("kernels are calculated"):
            objs = [new(ZernPol(m=m, n=n), a*wl, NA, wl, px, 3, 20, 36) for m, n, a in specs]
            want = [calculate(x, normalized=False, accelerated=False).copy() for x in objs]
            for x in objs:
                x.initialize_parallel_workers()
            for i in (0, 1, 0):
                agree(ctx, objs[i].get_kernel_parallel(False), want[i], "two objects with workers: each calculates its own kernel", object=i)
            objs[0].deinitialize_workers()
            agree(ctx, objs[1].get_kernel_parallel(False), want[1], "kernel by workers after the other object released its workers")
            agree(ctx, objs[0].get_kernel_parallel(False), want[0], "kernel after releasing the workers = plain kernel")
            objs[1].deinitialize_workers()


def unsupported(ctx):
    """Accelerated code not available for an order: a ValueError and no other kernel; the plain calculation still works."""
    from zernpy import ZernPol
    rng = ctx.rng("unsupported")
    for k in range(ctx.scale(6, 30)):
        n = int(rng.integers(11, 18)); m = int(rng.choice([x for x in range(-n, n + 1, 2) if not supported(x, n)]))
        ctx.case((k, m, n))
        z = ZernPol(m=m, n=n)
        for pols, cs in ((z, 0.1), ([z, ZernPol(m=0, n=2)], [0.1, 0.05])):
            with ctx.guard("kernels are calculated"):
                psf = new(pols, cs, 0.5, 0.5, 0.1, 3, 20, 36)
                try:
                    K = calculate(psf, normalized=False, accelerated=True).copy()
                except ValueError:
                    ctx.ok(True, "an order without accelerated code is rejected or calculated correctly")
                    ctx.event("unsupported order rejected")
                    continue
                agree(ctx, K, calculate(psf, normalized=False, accelerated=False), "an order without accelerated code is rejected or calculated correctly")


SECTIONS = [("single polynomials", single), ("sets", sets), ("larger kernels", larger), ("flags", flags), ("long sets", long_sets), ("verbose", verbose), ("without numba", without_numba), ("types of numbers", types), ("parallel workers", parallel), ("the same point", same_point), ("two objects with workers", switch_workers),
            ("orders without accelerated code", unsupported)]
