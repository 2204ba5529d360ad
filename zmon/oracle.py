"""Independent reference values ("oracles") the monitors compare the observed behaviour with.

Nothing here imports zernpy.  Exact values use integers and fractions; the fast float forms are validated against the
exact ones by selfcheck() at the start of the runs that use them.
"""
from fractions import Fraction
from functools import lru_cache
from math import factorial, sqrt, pi
import numpy as np
from scipy.special import j1

MAX_N = 54
EPS = float(np.finfo(float).eps)


# ---------------------------------------------------------------- orders
def all_orders(max_n=MAX_N, min_n=0):
    return [(m, n) for n in range(min_n, max_n + 1) for m in range(-n, n + 1, 2)]


def valid_orders(m, n):
    return 0 <= n <= MAX_N and abs(m) <= n and (n - abs(m)) % 2 == 0


# ---------------------------------------------------------------- radial polynomial
@lru_cache(maxsize=None)
def coeffs(n, m):
    """Exact integer coefficients {power: c} of R_n^|m|, by the factorial definition."""
    m = abs(m)
    return {n - 2*s: (-1)**s*factorial(n - s)//(factorial(s)*factorial((n + m)//2 - s)*factorial((n - m)//2 - s))
            for s in range((n - m)//2 + 1)}


def radial_exact(n, m, r):
    x = Fraction(float(r))
    return sum(c*x**k for k, c in coeffs(n, m).items())


def radial_dr_exact(n, m, r):
    x = Fraction(float(r))
    return sum((c*k*x**(k - 1) for k, c in coeffs(n, m).items() if k > 0), Fraction(0))


def _jacobi(k, a, b, x):
    """P_k^(a,b)(x) by the three-term recurrence (stable on [-1, 1])."""
    x = np.asarray(x, dtype=float)
    p0 = np.ones_like(x)
    if k == 0:
        return p0
    p1 = 0.5*(a - b + (a + b + 2.0)*x)
    for i in range(2, k + 1):
        c = 2*i + a + b
        p0, p1 = p1, ((c - 1)*(c*(c - 2)*x + a*a - b*b)*p1 - 2*(i + a - 1)*(i + b - 1)*c*p0)/(2.0*i*(i + a + b)*(c - 2))
    return p1


def radial(n, m, r):
    m = abs(m); r = np.asarray(r, dtype=float)
    return r**m*_jacobi((n - m)//2, 0, m, 2.0*r*r - 1.0)


def radial_dr(n, m, r):
    m = abs(m); r = np.asarray(r, dtype=float); k = (n - m)//2; x = 2.0*r*r - 1.0
    res = np.zeros_like(r)
    if m > 0:
        res = res + m*r**(m - 1)*_jacobi(k, 0, m, x)
    if k > 0:
        res = res + r**m*4.0*r*0.5*(k + m + 1)*_jacobi(k - 1, 1, m + 1, x)
    return res


def normf(n, m):
    return sqrt(n + 1) if m == 0 else sqrt(2*(n + 1))


def triangular(m, theta):
    theta = np.asarray(theta, dtype=float)
    return np.cos(m*theta) if m >= 0 else np.sin(-m*theta)


def triangular_dtheta(m, theta):
    theta = np.asarray(theta, dtype=float)
    return -m*np.sin(m*theta) if m >= 0 else -m*np.cos(-m*theta)


def zernike(m, n, r, theta):
    return normf(n, m)*radial(n, m, r)*triangular(m, theta)


# ---------------------------------------------------------------- unavoidable rounding error of explicit sums
@lru_cache(maxsize=None)
def _abs_coeffs(n, derivative):
    """For each power the largest |coefficient| over all m of this n."""
    acc = {}
    for m in range(n % 2, n + 1, 2):
        for k, c in coeffs(n, m).items():
            if derivative:
                c, k = c*k, k - 1
            if k >= 0:
                acc[k] = max(acc.get(k, 0.0), float(abs(c)))
    return tuple(sorted(acc.items()))


def abs_sum(n, r, derivative=False):
    r = np.asarray(r, dtype=float)
    return sum(c*r**k for k, c in _abs_coeffs(n, derivative))


def abs_sum_m(n, m, r, derivative=False):
    """sum |c_k| r^k of the explicit sum of R_n^m (or of its derivative) itself."""
    res = np.zeros_like(r)
    for k, c in coeffs(n, m).items():
        if derivative:
            c, k = c*k, k - 1
        if k >= 0:
            res = res + float(abs(c))*r**k
    return res


def _rounding(n, m, r, memo, derivative):
    """Rounding error (in eps) of R or dR: of the explicit sum up to the order 40 (38), propagated by the recurrence equation above."""
    m = abs(m); key = (n, m, derivative)
    if key not in memo:
        if n <= (38 if derivative else 40) or m >= n - 2:
            memo[key] = (1.0 + (n if derivative else 0)) + abs_sum_m(n, m, r, derivative)
        else:
            v = 0.0
            for mm in (abs(m - 1), m + 1):
                if derivative:
                    v = v + _rounding(n - 1, mm, r, memo, False) + r*_rounding(n - 1, mm, r, memo, True)
                else:
                    v = v + r*_rounding(n - 1, mm, r, memo, False)
            memo[key] = v + _rounding(n - 2, m, r, memo, derivative)
    return memo[key]


def tol_radial(n, m, r, factor=40.0):
    """Error allowed for R: a multiple of the rounding error of the explicit sum (propagated by the recurrence above n = 40)."""
    r = np.asarray(r, dtype=float)
    t = 2.0*_rounding(n, m, r, {}, False)
    if n > 40:  # the worst case of the recurrence overestimates: not more than for any order where explicit sums are used
        t = np.minimum(t, 2.0 + 4.0*np.maximum(abs_sum(40, r), abs_sum(39, r)))
    return factor*EPS*t


def tol_radial_dr(n, m, r, factor=40.0):
    r = np.asarray(r, dtype=float)
    t = 2.0*_rounding(n, m, r, {}, True)
    if n > 38:
        t = np.minimum(t, 2.0*(n + 1) + 12.0*(np.maximum(abs_sum(38, r, True), abs_sum(37, r, True)) + n*abs_sum(40, r)))
    return factor*EPS*t


def tol_zernike(n, m, r, theta=None, factor=40.0):
    # the argument m*theta is rounded: relative error eps, absolute error of cos up to |m|*2*pi*eps
    return normf(n, m)*(tol_radial(n, m, r, factor) + 4.0*EPS*(2 + abs(m)*2*pi)*np.abs(radial(n, m, r)) + 4*EPS)


def selfcheck(rng, count=60):
    """Validate the float forms against the exact ones; returns the number of comparisons and the largest errors."""
    worst = 0.0; worst_d = 0.0
    for _ in range(count):
        n = int(rng.integers(0, MAX_N + 1)); m = int(rng.integers(0, n//2 + 1))*2 + n % 2
        if m > n:
            m = n
        r = float(rng.random()) if rng.random() < 0.8 else float(rng.choice([0.0, 1.0, 0.5, 1e-9, 1 - 1e-12]))
        e = abs(float(radial(n, m, r)) - float(radial_exact(n, m, r)))
        d = abs(float(radial_dr(n, m, r)) - float(radial_dr_exact(n, m, r)))/(n*n + 1)
        worst = max(worst, e); worst_d = max(worst_d, d)
    assert worst < 2e-12 and worst_d < 2e-12, ("oracle self-check failed", worst, worst_d)
    return {"comparisons": 2*count, "worst_abs_error_R": worst, "worst_scaled_error_dR": worst_d}


# ---------------------------------------------------------------- index schemes, by construction of the orderings
@lru_cache(maxsize=None)
def osa_table(max_n):
    """list position = OSA index."""
    return tuple((m, n) for n in range(max_n + 1) for m in range(-n, n + 1, 2))


@lru_cache(maxsize=None)
def noll_table(max_n):
    """list position + 1 = Noll index: ordered by n, then |m|; of a pair the cosine term gets the even index."""
    res = []
    for n in range(max_n + 1):
        for am in range(n % 2, n + 1, 2):
            if am == 0:
                res.append((0, n))
            else:
                j = len(res) + 1
                res += [(am, n), (-am, n)] if j % 2 == 0 else [(-am, n), (am, n)]
    return tuple(res)


@lru_cache(maxsize=None)
def fringe_index(m, n):
    """Position of (m, n) in the Fringe ordering, by counting: groups of (n+|m|)/2, within a group by decreasing |m|, cos before sin."""
    g = (n + abs(m))//2
    before = g*g  # groups 0..g-1 hold 2*i+1 members each
    pos = 2*(g - abs(m))  # members of this group with larger |m|: two for each of |m|+1 .. g
    return before + pos + (1 if m >= 0 else 2)


# ---------------------------------------------------------------- PSF
@lru_cache(maxsize=None)
def _gauss(nr):
    x, w = np.polynomial.legendre.leggauss(nr)
    return 0.5*(x + 1.0), 0.5*w


def _psf(terms, NA, wavelength, pixel, size, rho, w, phi, v):
    """|1/pi sum_ij w_i v_j rho_i exp(i(sum a Z - k NA d rho cos(phi-theta)))|^2 for each pixel.

    terms: list of ((m, n), alpha); alpha = coefficient / wavelength.  The direction theta of a pixel is the angle of (row, column)
    offset plus pi, hence d*cos(phi - theta) = -(dj*cos(phi) + di*sin(phi)).
    """
    W = np.zeros((rho.size, phi.size))
    for (m, n), a in terms:
        W = W + a*normf(n, m)*np.outer(radial(n, m, rho), triangular(m, phi))
    P = np.exp(1j*W)*(w*rho)[:, None]*v[None, :]/pi
    X = np.outer(rho, np.cos(phi)); Y = np.outer(rho, np.sin(phi))
    c = size//2; s = 2*pi/wavelength*NA*pixel
    K = np.empty((size, size))
    ex = [np.exp(1j*s*(j - c)*X) for j in range(size)]
    for i in range(size):
        Pi = P*np.exp(1j*s*(i - c)*Y)
        for j in range(size):
            K[i, j] = abs(np.sum(Pi*ex[j]))**2
    return K


def psf_kernel(terms, NA, wavelength, pixel, size, nr=80, nphi=256):
    """Converged kernel: Gauss-Legendre on the radius, periodic trapezoid on the angle."""
    rho, w = _gauss(nr); phi = 2*pi*np.arange(nphi)/nphi
    return _psf(terms, NA, wavelength, pixel, size, rho, w, phi, np.full(nphi, 2*pi/nphi))


def psf_kernel_discrete(terms, NA, wavelength, pixel, size, n_r, n_phi):
    """Kernel by the documented rules: trapezoid with n_r intervals, Simpson with n_phi (made even) intervals."""
    n_phi += n_phi % 2
    rho = np.arange(n_r + 1)/n_r; w = np.full(n_r + 1, 1.0/n_r); w[[0, -1]] *= 0.5
    phi = 2*pi*np.arange(n_phi + 1)/n_phi; v = np.full(n_phi + 1, 2.0); v[1::2] = 4.0; v[[0, -1]] = 1.0
    return _psf(terms, NA, wavelength, pixel, size, rho, w, phi, v*2*pi/n_phi/3.0)


def psf_reference(terms, NA, wavelength, pixel, size, n_r, n_phi):
    """(converged kernel, bound of the discretization error) or None if the reference itself does not converge."""
    top = max([n for (m, n), a in terms] + [0]); amp = sum(abs(a)*normf(n, m)*(abs(m) + 1) for (m, n), a in terms)
    s = 2*pi/wavelength*NA*pixel*size*0.75
    nphi = 64*int(np.ceil((3*amp + 3*s + 4*top + 60)/64)); nr = int(40 + 0.6*s + 1.2*amp/(1 + 0) + top)
    if nphi > 1600 or nr > 500:
        return None
    K = psf_kernel(terms, NA, wavelength, pixel, size, nr, nphi)
    K2 = psf_kernel(terms, NA, wavelength, pixel, size, int(nr*1.25) + 3, nphi + 32)
    if np.max(np.abs(K - K2)) > 1e-11:
        return None
    D = psf_kernel_discrete(terms, NA, wavelength, pixel, size, n_r, n_phi)
    return K, 1.5*float(np.max(np.abs(D - K))) + 1e-10


def psf_pixels(terms, NA, wavelength, pixel, offsets, n_r, n_phi):
    """(converged values of the not normalized kernel at the pixel offsets (di, dj), bound of the discretization error of each)."""
    amp = sum(abs(a)*normf(n, m)*(abs(m) + 1) for (m, n), a in terms); top = max([n for (m, n), a in terms] + [0])
    s = 2*pi/wavelength*NA*pixel; far = s*max(np.hypot(*d) for d in offsets)
    nphi = 64*int(np.ceil((3*amp + 3*far + 4*top + 60)/64)); nr = int(40 + 0.6*far + 1.2*amp + top)

    def values(rho, w, phi, v):
        W = np.zeros((rho.size, phi.size))
        for (m, n), a in terms:
            W = W + a*normf(n, m)*np.outer(radial(n, m, rho), triangular(m, phi))
        P = np.exp(1j*W)*(w*rho)[:, None]*v[None, :]/pi
        return np.array([abs(np.sum(P*np.exp(1j*s*np.outer(rho, dj*np.cos(phi) + di*np.sin(phi)))))**2 for di, dj in offsets])

    def fine(k, q):
        rho, w = _gauss(k); phi = 2*pi*np.arange(q)/q
        return values(rho, w, phi, np.full(q, 2*pi/q))
    n_phi += n_phi % 2; rho = np.arange(n_r + 1)/n_r; w = np.full(n_r + 1, 1.0/n_r); w[[0, -1]] *= 0.5
    phi = 2*pi*np.arange(n_phi + 1)/n_phi; v = np.full(n_phi + 1, 2.0); v[1::2] = 4.0; v[[0, -1]] = 1.0
    K = fine(nr, nphi); K2 = fine(int(nr*1.25) + 3, nphi + 32)
    if np.max(np.abs(K - K2)) > 1e-11:
        return None
    err = np.abs(values(rho, w, phi, v*2*pi/n_phi/3.0) - K)
    return K, 1.5*err + 0.2*err.max() + 1e-10


def airy_kernel(NA, wavelength, pixel, size):
    c = size//2; i, j = np.mgrid[0:size, 0:size]
    r = 2*pi/wavelength*NA*pixel*np.hypot(i - c, j - c)
    with np.errstate(invalid='ignore', divide='ignore'):
        v = np.where(r == 0, 0.5, j1(r)/r)
    return 4.0*v*v
