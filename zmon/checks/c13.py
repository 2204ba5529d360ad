"""C13: symmetries of diffraction, monitored on pairs of calculated kernels."""
import numpy as np
from math import pi
from scipy.special import j1
from .. import oracle as o
from .c11 import physical, amplitudes, polynomial, calculate
from .c12 import new, compile_now

LEVEL = "exploration"
RULE = ("A case is one pupil phase with optics and integration settings together with its transformed versions (piston added, signs reversed, turned, "
        "mirrored, displaced by a tilt); non-trivial if a polynomial other than the piston has a non-zero amplitude; distinct by the settings.")
ASSUMPTIONS = ["Sign reversal, mirror, piston, and displacement by whole pixels hold for the discretized integral exactly, the turn by 180 (90) degrees if the "
               "number of angular intervals is a multiple of 4 (8): there only rounding (1e-9) is allowed.",
               "Otherwise twice the independently computed discretization error is allowed."]
EXACT = 1e-9


class Setting:
    def __init__(self, rng, plain):
        self.NA, self.wl, self.px = physical(rng)
        self.plain = plain
        self.size = int(rng.choice([3, 5] if plain else [3, 5, 7, 9, 11]))
        self.n_r = int(rng.choice([20, 24, 33] if plain else [20, 33, 60, 111, 200]))
        self.n_phi = int(rng.choice([36, 40, 41, 42, 48] if plain else [36, 38, 39, 40, 62, 64, 96, 128, 200, 301]))
        self.norm = bool(rng.integers(2))

    @property
    def angles(self):
        return self.n_phi + self.n_phi % 2

    def cfg(self):
        return dict(NA=self.NA, wavelength=self.wl, px=self.px, size=self.size, n_r=self.n_r, n_phi=self.n_phi, plain=self.plain, normalized=self.norm)

    def kernel(self, terms, norm=None):
        """terms: list of ((m, n), alpha)."""
        from zernpy import ZernPol
        pols = [ZernPol(m=m, n=n) for (m, n), a in terms]; cs = [float(a*self.wl) for t, a in terms]
        if len(pols) == 1:
            pols, cs = pols[0], cs[0]
        psf = new(pols, cs, self.NA, self.wl, self.px, self.size, self.n_r, self.n_phi)
        return calculate(psf, normalized=self.norm if norm is None else norm, accelerated=not self.plain).copy()

    def bound(self, terms, top=1.0):
        ref = o.psf_reference(terms, self.NA, self.wl, self.px, self.size, self.n_r, self.n_phi)
        if ref is None:
            return None
        return (2.2*ref[1]/ref[0].max() if self.norm else ref[1]) + 1e-9


def same(ctx, A, B, tol, rule, **d):
    if tol is None:
        ctx.event("reference not converged"); return
    if not ctx.ok(A.shape == B.shape, "kernels have the same size", got=A.shape, want=B.shape):
        return
    err = np.abs(A - B)
    ctx.ok(np.all(np.isfinite(A)) and err.max() <= tol, rule, error=float(err.max()), at=np.unravel_index(err.argmax(), err.shape), tol=tol, **d)
    ctx.event("exact comparisons" if tol <= EXACT else "comparisons within the discretization error")
    if d.get("asym") is not None:
        ctx.event("asymmetric kernels compared", int(d["asym"] > 100*tol))


def turned(terms):
    """Pupil phase turned by 90 degrees: W'(phi) = W(phi - pi/2)."""
    out = []
    for (m, n), a in terms:
        k = abs(m)
        c = [1, 0, -1, 0][k % 4]; s = [0, 1, 0, -1][k % 4]
        if m >= 0:
            out.append(((m, n), a*c) if k % 2 == 0 else ((-m, n), a*s))
        else:
            out.append(((m, n), a*c) if k % 2 == 0 else ((-m, n), -a*s))
    return out


def rot90(K):
    c = K.shape[0]//2; i, j = np.mgrid[0:K.shape[0], 0:K.shape[0]]
    return K[c - (j - c), c + (i - c)]


def choose(rng, members, even=False):
    terms = []
    while len(terms) < members:
        m, n = polynomial(rng, True)
        if n > 12 and rng.random() < 0.7:
            continue
        if even and m % 2:
            continue
        if (m, n) not in terms:
            terms.append((m, n))
    return terms


def phases(rng, plain, even=False, members=None):
    members = members or int(rng.choice([1, 2, 3])); terms = choose(rng, members, even)
    a = amplitudes(rng, terms)
    return list(zip(terms, [float(x) for x in a]))


def symmetry_of(ctx, item):
    label, count, plain = item
    rng = ctx.rng("symmetry", label, plain)
    for k in range(count):
        s = Setting(rng, plain); even = k % 3 == 0
        terms = phases(rng, plain, even)
        ctx.case((str(terms), str(s.cfg())), nontrivial=True, terms=terms, **s.cfg())
        with ctx.guard("kernels are calculated"):
            K = s.kernel(terms); asym = float(np.abs(K - K[::-1, ::-1]).max())
            same(ctx, s.kernel([(t, -a) for t, a in terms]), K[::-1, ::-1], EXACT, "reversed signs of amplitudes rotate the kernel by 180 degrees", asym=asym)
            same(ctx, s.kernel([((m, n), -a if m < 0 else a) for (m, n), a in terms]), K[::-1, :], EXACT,
                 "negated amplitudes of sin polynomials mirror the kernel", asym=float(np.abs(K - K[::-1]).max()))
            b = None
            if even:
                tol = EXACT if s.angles % 4 == 0 else s.bound(terms)
                tol = None if tol is None else (tol if tol == EXACT else 2*tol)
                same(ctx, K, K[::-1, ::-1], tol, "even azimuthal orders: the kernel equals its rotation by 180 degrees")
            if s.angles % 8 == 0:
                tol = EXACT
            else:
                b = s.bound(terms); tol = None if b is None else 2*b
            T = turned(terms)
            same(ctx, s.kernel(T), rot90(K), tol, "pupil phase turned by 90 degrees turns the kernel", asym=float(np.abs(K - rot90(K)).max()), turned=T)
            if not s.norm:
                ctx.ok(K.max() <= 1.0 + 1e-9, "no pixel exceeds the diffraction-limited maximum", got=K.max())


def symmetry(ctx):
    compile_now()
    ctx.pmap(symmetry_of, [(i, ctx.scale(16, 260), False) for i in range(6)] + [(i, ctx.scale(5, 45), True) for i in range(6)])


def piston_of(ctx, item):
    label, count, plain = item
    rng = ctx.rng("piston", label, plain)
    for k in range(count):
        s = Setting(rng, plain); terms = phases(rng, plain, members=int(rng.choice([1, 2])))
        p = float(rng.choice([0.25, -0.5, float(rng.uniform(-8, 8)), 1.0]))
        ctx.case((str(terms), p, str(s.cfg())), terms=terms, piston=p, **s.cfg())
        with ctx.guard("kernels are calculated"):
            K = s.kernel(terms)
            w = list(terms); w.insert(int(rng.integers(0, len(w) + 1)), ((0, 0), p))
            same(ctx, s.kernel(w), K, EXACT, "adding the piston doesn't change the kernel")
            # zero amplitudes: Airy
            zero = [(t, 0.0) for t, a in terms]
            A = o.airy_kernel(s.NA, s.wl, s.px, s.size); b = s.bound([((0, 0), 0.0)])
            Z = s.kernel(zero)
            same(ctx, Z, A/A.max() if s.norm else A, b, "zero amplitudes give the Airy pattern")
            same(ctx, s.kernel([((0, 0), p)] + zero), Z, EXACT, "the piston with zero amplitudes gives the Airy pattern")
            P = s.kernel([((0, 0), p)])
            same(ctx, P, A/A.max() if s.norm else A, 1e-9 if plain else b, "the piston alone gives the Airy pattern")
            ctx.event("piston comparisons")


def piston(ctx):
    compile_now()
    ctx.pmap(piston_of, [(i, ctx.scale(14, 220), False) for i in range(6)] + [(i, ctx.scale(5, 40), True) for i in range(6)])


def tilt_of(ctx, item):
    label, count, plain = item
    rng = ctx.rng("tilt", label, plain)
    for k in range(count):
        s = Setting(rng, plain); q = 2*pi/s.wl*s.NA*s.px; c = s.size//2
        a, b = (float(x) for x in rng.uniform(-1.5, 1.5, 2))
        kind = int(rng.integers(0, 3))
        terms = [[((1, 1), a)], [((-1, 1), b)], [((1, 1), a), ((-1, 1), b)]][kind]
        ta, tb = (a if kind != 1 else 0.0), (b if kind != 0 else 0.0)
        ctx.case((str(terms), str(s.cfg())), terms=terms, **s.cfg())
        with ctx.guard("kernels are calculated"):
            K = s.kernel(terms, norm=False); i, j = np.mgrid[0:s.size, 0:s.size]
            v = np.hypot(q*(j - c) + 2*ta, q*(i - c) + 2*tb)
            with np.errstate(invalid='ignore', divide='ignore'):
                want = 4*np.where(v == 0, 0.5, j1(v)/v)**2
            bound = s.bound(terms)
            if s.norm and bound is not None:
                bound = o.psf_reference(terms, s.NA, s.wl, s.px, s.size, s.n_r, s.n_phi)[1] + 1e-9
            same(ctx, K, want, bound, "a tilt displaces the Airy pattern by 2*amplitude along its axis")
            # displacement by a whole number of pixels
            d = [int(x) for x in rng.integers(-2, 3, 2)]
            members = [((1, 1), d[0]*q/2), ((-1, 1), d[1]*q/2)]
            Z = s.kernel([(t, 0.0) for t, _ in members], norm=False); T = s.kernel(members, norm=False)
            # T at (j, i) = Z at (j + d0, i + d1)
            lo_i, hi_i = max(0, -d[1]), min(s.size, s.size - d[1]); lo_j, hi_j = max(0, -d[0]), min(s.size, s.size - d[0])
            if hi_i > lo_i and hi_j > lo_j:
                same(ctx, T[lo_i:hi_i, lo_j:hi_j], Z[lo_i + d[1]:hi_i + d[1], lo_j + d[0]:hi_j + d[0]], EXACT,
                     "a tilt of a whole number of pixels shifts the pixels of the kernel", shift=d)
            ctx.ok(max(K.max(), T.max()) <= 1.0 + 1e-9, "no pixel exceeds the diffraction-limited maximum", got=K.max())
            # the tilt displaces any kernel
            other = phases(rng, plain, members=1)
            if other[0][0] not in ((1, 1), (-1, 1)):
                U = s.kernel(other, norm=False); V = s.kernel(other + members[:1], norm=False)
                if hi_j > lo_j:
                    same(ctx, V[:, lo_j:hi_j], U[:, lo_j + d[0]:hi_j + d[0]], EXACT, "a tilt added to another aberration shifts its kernel", shift=d[0], other=other)


def tilt(ctx):
    compile_now()
    ctx.pmap(tilt_of, [(i, ctx.scale(12, 200), False) for i in range(6)] + [(i, ctx.scale(5, 40), True) for i in range(6)])


def strong(ctx):
    """Strong and many aberrations: the limit 1 and the positions of the maximum of the unaberrated kernel."""
    from zernpy import ZernPol
    compile_now()
    rng = ctx.rng("strong")
    for k in range(ctx.scale(40, 400)):
        s = Setting(rng, False); t = choose(rng, int(rng.choice([1, 2, 3])))
        terms = [(x, float(rng.uniform(-9, 9))) for x in t]
        ctx.case((str(terms), str(s.cfg())), terms=terms, **s.cfg())
        with ctx.guard("kernels are calculated"):
            K = s.kernel(terms, norm=False)
            ctx.ok(K.min() >= 0 and K.max() <= 1 + 1e-9, "no pixel exceeds the diffraction-limited maximum", got=(K.min(), K.max()))
            same(ctx, s.kernel([(x, -a) for x, a in terms], norm=False), K[::-1, ::-1], EXACT*10, "reversed signs of amplitudes rotate the kernel by 180 degrees")


SECTIONS = [("symmetries", symmetry), ("piston", piston), ("tilt", tilt), ("strong aberrations", strong)]
