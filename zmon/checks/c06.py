"""C06: independence of history, caches and concurrent callers."""
import random
import sys
import threading
import time
import warnings
import numpy as np
from .. import oracle as o
from .. import monitors
from ..core import SRC
from ..forked import fork_call

LEVEL = "exploration"
RULE = ("A case is one history: a sequence of calls (or a set of concurrently running sequences) executed in a process of its own, "
        "with its results compared with those of other histories; non-trivial if at least two different polynomials were evaluated before "
        "or during a compared call; distinct by the sequence and the interleaving seen.")
ASSUMPTIONS = ["Results of equal calls must be equal bit for bit, or differ by less than a tenth of the accuracy bound of C01/C02.",
               "Thread schedules are forced by a tiny switch interval and by random yields injected at source lines of the library."]


# ---------------------------------------------------------------- probes
def make_probe(rng, top=46):
    kind = str(rng.choice(["polynomial_value", "polynomial_value", "radial", "radial_dr", "radial_dr", "triangular", "triangular_dtheta", "sum"]))
    n = int(rng.integers(0, top + 1)) if kind != "radial_dr" else int(rng.integers(0, min(top, 44) + 1))
    if rng.random() < 0.5:
        n = min(n, 30)
    m = int(rng.choice(np.arange(-n, n + 1, 2)))
    if n > 42 and abs(m) < n - 6:
        m = n
    exact = bool(rng.random() < 0.3) and n <= (38 if kind == "radial_dr" else 40)
    return kind, m, n, exact, int(rng.integers(0, 6))


def coords(k):
    g = np.random.default_rng(k)
    size = [None, 1, 5, 33, 4, 2][k]
    if size is None:
        return float(g.random()), float(g.uniform(0, 6.28))
    r, t = g.random(size), g.uniform(0, 2*np.pi, size)
    return (r.reshape(2, 2), t.reshape(2, 2)) if k == 4 else (r, t)


def perform(p, pool=None):
    from zernpy import ZernPol
    kind, m, n, exact, k = p
    r, t = coords(k)
    if pool is not None:
        z = pool.setdefault((m, n), None) or pool.__setitem__((m, n), ZernPol(m=m, n=n)) or pool[m, n]
    else:
        z = ZernPol(m=m, n=n)
    if kind == "polynomial_value":
        return z.polynomial_value(r, t, use_exact_eq=exact)
    if kind in ("radial", "radial_dr"):
        return getattr(z, kind)(r, use_exact_eq=exact)
    if kind == "sum":
        return ZernPol.sum_zernikes([0.5, -1.25], [z, ZernPol(m=0, n=14)], r, t)
    return getattr(z, kind)(t)


def allowed(p):
    kind, m, n, exact, k = p
    r, t = coords(k)
    if kind in ("polynomial_value", "sum"):
        return 0.1*(o.tol_zernike(n, m, r, t) + o.tol_zernike(14, 0, r, t))
    if kind == "radial":
        return 0.1*o.tol_radial(n, m, r)
    if kind == "radial_dr":
        return 0.1*o.tol_radial_dr(n, m, r)
    return 8*o.EPS*(1 + abs(m))**2*10


def same(a, b, p):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return bool(np.array_equal(a, b)) or bool(np.all(np.abs(a - b) <= allowed(p)))


def noise(rng):
    """Calls that may disturb: failing ones, prints of names, PSF settings, plots of nothing."""
    from zernpy import ZernPol, generate_polynomials
    z = ZernPol(osa=int(rng.integers(0, 600)))
    for f in (lambda: z.polynomial_value(2.0, 0.0), lambda: z.radial([0.5, -1.0]), lambda: ZernPol(m=3, n=2), lambda: z.radial("x"),
              lambda: z.polynomial_value(np.zeros(3), np.zeros(4)), lambda: str(z), lambda: generate_polynomials(3),
              lambda: z.polynomial_value(0.5, 9.0), lambda: ZernPol.sum_zernikes([1.0], [None], 0.1, 0.1)):
        if rng.random() < 0.3:
            try:
                f()
            except (ValueError, TypeError, AttributeError):
                pass


# ---------------------------------------------------------------- fresh process against warmed process
def first_calls(probes):
    return [perform(p) for p in probes]


def history(args):
    seed, probes, warm, reuse = args
    rng = np.random.default_rng(seed); pool = {} if reuse else None
    for w in warm:
        perform(w, pool)
        if rng.random() < 0.2:
            noise(rng)
        if rng.random() < 0.3:   # spoil the returned arrays
            v = perform(w, pool)
            if isinstance(v, np.ndarray):
                v *= -3.0; v += 7.0
    order = list(range(len(probes))); rng.shuffle(order)
    res = [None]*len(probes)
    for i in order:
        res[i] = perform(probes[i], pool)
        if rng.random() < 0.2:
            noise(rng)
    return res


def one_history(ctx, item):
    label, k = item
    rng = ctx.rng("history", label, k)
    probes = [make_probe(rng) for _ in range(ctx.scale(8, 16))]
    # each probe as the very first call of a process of its own
    base = [fork_call(first_calls, [p])[0] for p in probes]
    hists = []
    for j in range(3):
        warm = [make_probe(rng) for _ in range(int(rng.integers(2, 40)))]
        if j == 0:   # neighbours in the recurrences, in increasing or decreasing order
            warm = [(kd, s*max(0, min(abs(m) + dm, n + dn)), n + dn, False, 2) for kd, m, n, e, c in probes if kd != "triangular" for dm, dn in
                    ((1, 1), (1, -1), (0, 2), (0, -2), (2, 2)) for s in (1, -1) if 0 <= n + dn <= 44 and (n + dn - min(abs(m) + dm, n + dn)) % 2 == 0]
            warm = [w for w in warm if w[2] <= 42 or abs(w[1]) >= w[2] - 4]
            if rng.random() < 0.5:
                warm = warm[::-1]
        hists.append((int(rng.integers(2**31)), probes, warm, j == 1))
    hists.append((int(rng.integers(2**31)), probes*2, [], True))
    for h in hists:
        ctx.case((h[0], tuple(probes), tuple(h[2][:20])), probes=probes[:4], warm_up_calls=len(h[2]))
        res = fork_call(history, h)
        ctx.event("compared results", len(res))
        for i, v in enumerate(res):
            p = h[1][i]
            ctx.ok(same(v, base[i % len(base)], p), "result equals that of the first call in a fresh process", call=p, got=v, want=base[i % len(base)],
                   warm_up=h[2][:30])


def histories(ctx):
    ctx.pmap(one_history, [("h", k) for k in range(ctx.scale(24, 240))])


# ---------------------------------------------------------------- concurrent callers on cold caches
class Yielder:
    """Trace function: random yields at source lines of the library, and a record of the switches between threads."""

    def __init__(self, seed, p):
        self.rnd = random.Random(seed); self.p = p; self.last = None; self.switches = []; self.lines = 0
        self.root = str(SRC)

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        self.lines += 1
        me = threading.get_ident()
        if self.last != me:
            self.last = me; self.switches.append((me, frame.f_code.co_name, frame.f_lineno))
        if self.rnd.random() < self.p:
            time.sleep(0 if self.rnd.random() < 0.7 else 2e-5)
        return self.line


def concurrent(args):
    seed, lists, p = args
    sys.setswitchinterval(1e-6)
    y = Yielder(seed, p); res = [[None]*len(ls) for ls in lists]; errors = []; pool = {}
    barrier = threading.Barrier(len(lists))

    def work(i):
        sys.settrace(y)
        barrier.wait()
        try:
            for k, q in enumerate(lists[i]):
                res[i][k] = perform(q, pool)
        except BaseException as e:  # noqa: B902
            errors.append(f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(lists))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ids = {t: i for i, t in enumerate(dict.fromkeys(s[0] for s in y.switches))}
    sig = hash(tuple((ids[a], b, c) for a, b, c in y.switches))
    return res, errors, len(y.switches), y.lines, sig


def one_schedule(ctx, item):
    k = item
    rng = ctx.rng("threads", k)
    # few distinct polynomials, so that the threads fill the same cache entries
    top = int(rng.choice([16, 24, 34, 42]))
    base = [make_probe(rng, top) for _ in range(5)]
    shared = [b for b in base for _ in range(2)]
    lists = []
    for _ in range(int(rng.integers(2, 7))):
        ls = list(shared); rng.shuffle(ls); lists.append([tuple(x) if not isinstance(x, tuple) else x for x in map(tuple, ls)])
    lists = [[(str(a), int(b), int(c), e in (True, "True"), int(d)) for a, b, c, e, d in ls] for ls in lists]
    want = {p: fork_call(first_calls, [p])[0] for p in base}
    for rep in range(ctx.scale(2, 6)):
        seed = int(rng.integers(2**31)); p = float(rng.choice([0.0, 0.02, 0.2]))
        res, errors, switches, lines, sig = fork_call(concurrent, (seed, lists, p))
        ctx.case((k, rep, sig), probes=base[:3], threads=len(lists), switches=switches)
        ctx.event("thread switches inside the library", switches); ctx.event("traced library lines", lines)
        ctx.ok(not errors, "concurrent callers get no errors", errors=errors[:3], calls=base)
        for ls, rs in zip(lists, res):
            for q, v in zip(ls, rs):
                if v is not None:
                    ctx.ok(same(v, want[q], q), "result under concurrent callers equals that of a lone call", call=q, got=v, want=want[q])


def schedules(ctx):
    ctx.pmap(one_schedule, range(ctx.scale(32, 320)))


# ---------------------------------------------------------------- inputs and outputs
def aliasing(ctx):
    from zernpy import ZernPol
    rng = ctx.rng("alias")
    orders = o.all_orders(14) + [(m, n) for m, n in o.all_orders(42) if n > 14 and rng.random() < 0.12]
    for m, n in orders:
        z = ZernPol(m=m, n=n)
        for shape in ((5,), (1,), (2, 3)):
            r, t = rng.random(shape), rng.uniform(0, 2*np.pi, shape)
            r0, t0 = r.copy(), t.copy()
            frozen = rng.random() < 0.5
            if frozen:
                r.setflags(write=False); t.setflags(write=False)
            ctx.case((m, n, shape, frozen))
            for exact in (False, True):
                calls = [("polynomial_value", lambda: z.polynomial_value(r, t, use_exact_eq=exact)), ("radial", lambda: z.radial(r, use_exact_eq=exact)),
                         ("radial_dr", lambda: z.radial_dr(r, use_exact_eq=exact)), ("triangular", lambda: z.triangular(t)),
                         ("triangular_dtheta", lambda: z.triangular_dtheta(t)), ("mixed", lambda: z.polynomial_value(0.25, t, use_exact_eq=exact)),
                         ("sum", lambda: ZernPol.sum_zernikes([1.0], [z], r, t))]
                for name, f in calls:
                    with ctx.guard("read-only inputs are accepted"):
                        a = f(); keep = np.array(a); b = f()
                        ctx.ok(np.array_equal(r, r0) and np.array_equal(t, t0), "inputs are unchanged", method=name)
                        for v in (a, b):
                            ctx.ok(not np.shares_memory(np.asarray(v), r) and not np.shares_memory(np.asarray(v), t), "results do not share memory with inputs",
                                   method=name, exact=exact)
                        if isinstance(a, np.ndarray):
                            ctx.ok(not np.shares_memory(a, b), "results of two calls do not share memory", method=name)
                            ctx.ok(a.flags.writeable, "results are writeable")
                            a *= 0.0; a -= 5.0
                            near = 1e-9*(1 + np.max(np.abs(keep)))
                            ctx.ok(np.all(np.abs(np.asarray(b) - keep) <= near) and np.all(np.abs(np.asarray(f()) - keep) <= near), "modifying a result does not affect others",
                                   method=name, exact=exact)


def edges_of(ctx, item):
    """Inputs that the library may correct (angles out of the period) or that lie within rounding of the limits: never written to."""
    m, n = item
    from zernpy import ZernPol
    rng = ctx.rng("edges", m, n)
    z = ZernPol(m=m, n=n); up, down = np.nextafter(1.0, 2.0), np.nextafter(0.0, -1.0)
    radii = [("next to one", [0.5, up, 1.0, np.nextafter(1.0, 0.0)]), ("next to zero", [0.5, down, -0.0, 5e-324]), ("above by rounding", [0.3, 1.0 + 1e-12, 0.2, 0.1]),
             ("below by rounding", [-1e-12, 0.3, 0.2, 0.1]), ("plain", [0.0, 0.25, 0.5, 1.0]), ("just inside", [0.5, 1.0 - 1e-10, np.nextafter(1.0, 0.0), 0.1]), ("nearly one", [0.5, 1.0 - 1e-7, 0.2, 0.999]), ("nearly zero", [1e-300, 1e-12, 0.4, 0.7]), ("outside", [0.5, 1.5, 0.1, 0.2]), ("not a number", [0.5, np.nan, 0.1, 0.2])]
    angles = [("negative", [-1.0, 0.5, 1.0, -3.0]), ("above", [7.0, 8.0, 6.5, 9.0]), ("wide", [-10.0, 0.0, 20.0, 300.0]), ("within rounding above", [0.0, 2*np.pi, np.nextafter(2*np.pi, 9.0), 1.0]),
              ("within rounding below", [0.0, down, -1e-15, 1.0]), ("plain", [0.0, 1.0, 3.0, 6.0]), ("just inside", [np.nextafter(2*np.pi, 0.0), 6.283185307, 1e-12, 1.0]), ("rounded period", [6.2832, 1.0, 2.0, 6.283186]), ("multiples", [0.0, 2*np.pi, 4*np.pi, np.pi]), ("symmetric", [-np.pi, -0.5, 0.5, np.pi]), ("integers", [-7, 1, 8, 13])]
    pairs = [(a, b) for a in radii for b in angles]
    for i in rng.choice(len(pairs), ctx.scale(16, len(pairs)), replace=False):
        (rk, rv), (tk, tv) = pairs[int(i)]
        for form, make in (("array", np.array), ("2D", lambda v: np.array(v).reshape(2, 2)), ("list", list), ("view", lambda v: np.repeat(np.array(v), 2)[::2]),
                           ("Fortran", lambda v: np.asfortranarray(np.array(v).reshape(2, 2)))):
            r, t = make(rv), make(tv); keep = repr(np.array(r).tolist()), repr(np.array(t).tolist())
            base_r = getattr(r, "base", None); base_t = getattr(t, "base", None)
            bases = repr([None if b is None else np.array(b).tolist() for b in (base_r, base_t)])
            ctx.case((m, n, rk, tk, form), radii=rv, angles=tv)
            calls = [("polynomial_value", lambda: z.polynomial_value(r, t)), ("polynomial_value (exact)", lambda: z.polynomial_value(r, t, use_exact_eq=True)), ("radial", lambda: z.radial(r)),
                     ("radial (exact)", lambda: z.radial(r, use_exact_eq=True)), ("radial_dr", lambda: z.radial_dr(r)), ("triangular", lambda: z.triangular(t)),
                     ("triangular_dtheta", lambda: z.triangular_dtheta(t)), ("sum of vectors", lambda: ZernPol.sum_zernikes([1.0, 0.5], [z, ZernPol(m=0, n=2)], r, t)),
                     ("surface of vectors", lambda: ZernPol.sum_zernikes([1.0, 0.5], [z, ZernPol(m=0, n=2)], r, t, get_surface=True)),
                     ("scalar radius", lambda: z.polynomial_value(0.5, t)), ("scalar angle", lambda: z.polynomial_value(r, 0.5))]
            first = {}
            for rep in range(2):
                for name, f in calls:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        try:
                            v = np.asarray(f()); out = v.tobytes(), v.shape
                        except Exception as e:  # noqa: B902 - whether the input is accepted is judged by C05 and C07
                            out = type(e).__name__
                    ctx.event("calls with inputs next to or beyond the limits")
                    now = repr(np.array(r).tolist()), repr(np.array(t).tolist())
                    if not ctx.ok(now == keep and repr([None if b is None else np.array(b).tolist() for b in (base_r, base_t)]) == bases, "inputs are unchanged", method=name, form=form,
                                  radii=rk, angles=tk, got=now, want=keep):
                        return
                    ctx.ok(first.setdefault(name, out) == out, "an equal call gives an equal outcome", method=name, form=form, radii=rv, angles=tv)


def edges(ctx):
    rng = ctx.rng("edge choice")
    items = [(m, n) for n in range(0, 5) for m in range(-n, n + 1, 2)] + [(int(m), n) for n in range(5, 41, ctx.scale(5, 1)) for m in rng.choice(np.arange(-n, n + 1, 2), 2, replace=False)]
    ctx.pmap(edges_of, items)


def sequences(ctx):
    """Containers given to the summing functions stay as they were."""
    from zernpy import ZernPol
    rng = ctx.rng("containers")
    for k in range(ctx.scale(60, 600)):
        ps = [ZernPol(osa=int(i)) for i in rng.choice(100, int(rng.integers(1, 7)), replace=False)]
        cs = rng.uniform(-1, 1, len(ps))
        if rng.random() < 0.4:
            cs[0] = 0.0
        cs_in = (list(cs), tuple(cs), cs.copy())[k % 3]; ps_in = (list(ps), tuple(ps))[k % 2]
        r, t = rng.random(int(rng.integers(2, 8))), rng.uniform(0, 6, int(rng.integers(2, 8)))
        r0, t0 = r.copy(), t.copy()
        ctx.case((k, len(ps)))
        with ctx.guard():
            a = ZernPol.sum_zernikes(cs_in, ps_in, r, t, get_surface=True); b = ZernPol.sum_zernikes(cs_in, ps_in, r, t, get_surface=True)
            ctx.ok(np.allclose(a, b, rtol=1e-9, atol=1e-9) and not np.shares_memory(a, b), "repeated sums are equal and separate")
            ctx.ok(np.array_equal(np.asarray(cs_in), cs) and len(ps_in) == len(ps) and all(x is y for x, y in zip(ps_in, ps)) and np.array_equal(r, r0)
                   and np.array_equal(t, t0), "containers given to sums are unchanged")
            s = ZernPol.gen_zernikes_surface(cs_in, ps_in, 0.2, 0.7)
            s.ZernSurf[:] = 9.0; s.R[:] = 9.0; s.Theta[:] = 9.0
            s2 = ZernPol.gen_zernikes_surface(cs_in, ps_in, 0.2, 0.7)
            ctx.ok(s2.R[0] == 0.0 and np.max(s2.R) <= 1.0 and np.max(s2.Theta) < 6.4 and not np.any(s2.ZernSurf == 9.0), "spoiled surfaces do not come back")


def result(fn):
    """(kind of outcome, value)."""
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "value", fn()
    except Exception as e:  # noqa: B902
        return type(e).__name__, None


def refilled_of(ctx, item):
    """The same container objects with other contents for each call: the outcome is that for new equal containers."""
    from zernpy import ZernPol, fit_polynomials, fit_polynomials_vectors, generate_phases_image
    from zernpy.calculations.calc_psfs import convolute_img_psf
    label, count = item; rng = ctx.rng("refilled", label); reject = {"radial", "radial_dr", "polynomial_value", "polynomial_value mixed"}
    for k in range(count):
        shape = [(5,), (1,), (2, 3), (12,)][int(rng.integers(4))] if rng.random() < 0.7 else [(300,), (40, 30), (5000,), (1030,)][int(rng.integers(4))]
        listed = len(shape) == 1 and rng.random() < 0.25; huge = int(np.prod(shape)) > 100
        R = np.empty(shape); T = np.empty(shape); pool = {}; last = None
        RL = [0.0]*shape[0]; TL = [0.0]*shape[0]; terms = [ZernPol(osa=i) for i in range(3)]; C = [0.0]*3; image = np.zeros((9, 9)); done = []
        steps = int(rng.integers(4, 9)); ctx.case((label, k, shape, listed), steps=steps)
        for step in range(steps):
            r = rng.random(shape); t = rng.uniform(0, 2*np.pi, shape); bad = step > 0 and rng.random() < 0.35
            if step and rng.random() < 0.3:  # only a part differs
                r.flat[1:] = np.clip(R.flat[1:], 0, 1)
            if bad:
                r.flat[int(rng.integers(r.size))] = float(rng.choice([1.5, -0.25, 7.0]))
            R[...] = r; T[...] = t; RL[:] = r.ravel().tolist(); TL[:] = t.ravel().tolist()
            c = rng.uniform(-2, 2, 3); C[:] = c.tolist(); img = rng.uniform(-1, 1, (9, 9)); image[...] = img
            name = str(rng.choice(sorted(reject) + ["triangular", "triangular_dtheta", "sum", "surface", "fit vectors", "fit image", "image", "convolution"])) if last is None or rng.random() < 0.5 else last
            if huge and name == "surface":
                name = "sum"
            last = name; m, n = o.all_orders(8)[int(rng.integers(45))]; exact = bool(rng.integers(2))
            if (m, n) not in pool and pool and rng.random() < 0.6:
                m, n = list(pool)[int(rng.integers(len(pool)))]
            z = pool.setdefault((m, n), ZernPol(m=m, n=n)); f = ZernPol(m=m, n=n); r1, t1 = (RL, TL) if listed else (R, T)
            def call(z, r, t, C, image, terms, name=name, exact=exact):
                if name in ("radial", "radial_dr"):
                    return getattr(z, name)(r, use_exact_eq=exact)
                if name == "polynomial_value":
                    return z.polynomial_value(r, t, use_exact_eq=exact)
                if name == "polynomial_value mixed":
                    return z.polynomial_value(r, 0.3, use_exact_eq=exact)
                if name in ("triangular", "triangular_dtheta"):
                    return getattr(z, name)(t)
                if name in ("sum", "surface"):
                    return ZernPol.sum_zernikes(C, terms, r, t, get_surface=name == "surface")
                if name == "fit vectors":
                    rr = np.repeat(np.asarray(r).ravel(), 4); tt = np.tile([0.1, 1.3, 2.9, 4.4], rr.size//4)
                    return fit_polynomials_vectors(tuple(terms), np.asarray(np.outer(np.asarray(t).ravel(), [1.0, 2.0, -1.0, 0.5]).ravel()), rr, tt, 8)
                if name == "fit image":
                    return fit_polynomials(image, tuple(terms), round_digits=8, suppress_warnings=True)
                if name == "image":
                    return generate_phases_image(terms, C, 9, 9)
                return convolute_img_psf(image, np.asarray([[0.1, 0.2, 0.3], [0.4, 1.0, 0.1], [0.0, 0.2, 0.7]]))
            if name in ("sum", "surface") and rng.random() < 0.5:
                terms[int(rng.integers(3))] = ZernPol(osa=int(rng.integers(3, 30)))
            with ctx.guard("the calls return or raise an exception"):
                a = result(lambda: call(z, r1, t1, C, image, terms)); given = (f, r.ravel().tolist() if listed else r.copy(), t.ravel().tolist() if listed else t.copy(), c.tolist(), img.copy(), list(terms))
                if rng.random() < 0.3:  # the same contents again
                    a = result(lambda: call(z, r1, t1, C, image, terms))
                done.append((call, name, exact, given, a, bad, dict(method=name, m=m, n=n, step=step, contents=r, listed=listed)))
        for call, name, exact, given, a, bad, d in done:  # afterwards: new containers don't come between
            with ctx.guard("the calls return or raise an exception"):
                b = result(lambda: call(*given))
                ctx.event("calls with refilled containers"); ctx.event("refilled with unacceptable values", int(bad and name in reject))
                ctx.ok(a[0] == b[0], "the outcome for a refilled container is that for a new one", got=a[0], want=b[0], **d)
                if bad and name in reject:
                    ctx.ok(a[0] == "ValueError", "radii outside of the disc are rejected whatever was accepted before", got=a[0], **d)
                if a[0] == b[0] == "value":
                    for x, y in zip(a[1] if isinstance(a[1], tuple) else (a[1],), b[1] if isinstance(b[1], tuple) else (b[1],)):
                        if x is None and y is None:
                            continue
                        x, y = np.asarray(x), np.asarray(y)
                        ctx.ok(x.shape == y.shape and bool(np.all(np.abs(x - y) <= 1e-9*(1 + np.abs(y)))), "the value for a refilled container is that for a new one", got=x, want=y, **d)


def refilled(ctx):
    ctx.pmap(refilled_of, [(i, ctx.scale(60, 700)) for i in range(8)])


def alike(rng, x, top):
    """Arrays of the same size which share what a summary of the contents might keep: (kind, array)."""
    n = x.size; flat = x.ravel().copy(); kind = str(rng.choice(["permuted inside", "reversed", "shifted", "one element", "same sum", "middle", "tiny change"]))
    if n < 4:
        return "replaced", rng.random(x.shape)*top
    if kind == "permuted inside":
        flat[1:-1] = rng.permutation(flat[1:-1])
    elif kind == "reversed":
        flat = flat[::-1].copy()
    elif kind == "shifted":
        flat = np.roll(flat, int(rng.integers(1, n)))
    elif kind == "one element":
        flat[int(rng.integers(n))] = rng.random()*top
    elif kind == "same sum":
        i, j = 1 + rng.choice(n - 2, 2, replace=False); d = 0.5*min(flat[i], top - flat[j]); flat[i] -= d; flat[j] += d
    elif kind == "middle":
        flat[n//4:3*n//4 + 1] = rng.random(3*n//4 + 1 - n//4)*top
    else:
        i = int(rng.integers(n)); flat[i] = flat[i] - 1E-4 if flat[i] > 0.5*top else flat[i] + 1E-4
    return kind, flat.reshape(x.shape)


def similar_of(ctx, item):
    """Arrays which differ only inside, evaluated one after another: the values are those of the elements alone."""
    from zernpy import ZernPol
    label, count = item; rng = ctx.rng("similar", label)
    for k in range(count):
        shape = [(2,), (5,), (17,), (64,), (65,), (100,), (129,), (513,), (1025,), (9, 11), (40, 30), (100, 100)][int(rng.integers(12))]
        names = [str(v) for v in rng.choice(["radial", "radial_dr", "polynomial_value", "triangular", "triangular_dtheta", "sum", "surface"], int(rng.integers(1, 3)))]
        r = rng.random(shape); t = rng.uniform(0, 2*np.pi, shape); n = int(rng.choice([2, 3, 4, 6, 9, 14, 22, 31, 40])); m = int(rng.choice(np.arange(-n, n + 1, 2)))
        if n > 30:
            m = int(np.sign(m) or 1)*n
        exact = bool(rng.integers(2)); z = ZernPol(m=m, n=n); y = ZernPol(m=-m, n=n); steps = int(rng.integers(3, 6)); kinds = []; results = []
        ctx.case((label, k, shape, n, m), methods=names)
        for step in range(steps):
            if step:
                which = int(rng.integers(3))
                if which != 1:
                    kind, r = alike(rng, r, 1.0); kinds.append(kind)
                if which != 0:
                    kind, t = alike(rng, t, 2*np.pi); kinds.append(kind)
            for name in names:
                if name == "surface" and r.ndim > 1:
                    continue
                q = z if rng.random() < 0.7 else (y if rng.random() < 0.5 else ZernPol(m=m, n=n)); e = exact if rng.random() < 0.8 else not exact
                with ctx.guard("the calls return"):
                    if name in ("radial", "radial_dr"):
                        v = getattr(q, name)(r, use_exact_eq=e)
                    elif name == "polynomial_value":
                        v = q.polynomial_value(r, t, use_exact_eq=e)
                    elif name in ("triangular", "triangular_dtheta"):
                        v = getattr(q, name)(t)
                    elif name == "sum":
                        v = ZernPol.sum_zernikes([0.5, -1.25], [q, ZernPol(m=0, n=2)], r, t)
                    else:
                        v = ZernPol.sum_zernikes([0.5, -1.25], [q, ZernPol(m=0, n=2)], r[:40], t[:50], get_surface=True)
                    results.append((name, step, q.get_indices()[0], e, r, t, np.array(v), list(kinds)))
        for name, step, (mm, nn), e, r, t, v, kinds in results:  # a few elements by scalars, with other objects
            q = ZernPol(m=mm, n=nn); c = ZernPol(m=0, n=2)
            if name == "surface":
                ctx.ok(v.shape == (min(40, r.size), min(50, t.size)), "the shape is that of the coordinates", got=v.shape)
                pick = [(int(rng.integers(v.shape[0])), int(rng.integers(v.shape[1]))) for _ in range(4)]; pairs = [(float(r[i]), float(t[j]), float(v[i, j])) for i, j in pick]
            else:
                ctx.ok(v.shape == r.shape, "the shape is that of the coordinates", got=v.shape)
                if v.shape != r.shape:
                    continue
                other = [x for x in results if x[0] == name and x[1] < step]  # where the previous array differs
                idx = [int(i) for i in rng.integers(0, r.size, 3)]
                if other:
                    diff = np.nonzero((other[-1][4].ravel() != r.ravel()) | (other[-1][5].ravel() != t.ravel()))[0]
                    idx += [int(i) for i in rng.choice(diff, min(6, diff.size), replace=False)] if diff.size else []
                pairs = [(float(r.flat[i]), float(t.flat[i]), float(v.flat[i])) for i in idx]
            for a, b, got in pairs:
                want = (q.radial(a, use_exact_eq=e) if name == "radial" else q.radial_dr(a, use_exact_eq=e) if name == "radial_dr" else q.polynomial_value(a, b, use_exact_eq=e) if name == "polynomial_value"
                        else q.triangular(b) if name == "triangular" else q.triangular_dtheta(b) if name == "triangular_dtheta" else 0.5*q.polynomial_value(a, b) - 1.25*c.polynomial_value(a, b))
                ctx.event("elements of similar arrays", 1)
                ctx.ok(abs(got - want) <= 1e-6*(1 + abs(want))*(1 if name != "radial_dr" else 1 + nn*nn), "the element of an array is that of its own coordinates, whatever array came before", method=name, m=mm, n=nn, r=a, theta=b, got=got, want=want, kinds=kinds)


def similar(ctx):
    ctx.pmap(similar_of, [(i, ctx.scale(40, 500)) for i in range(8)])


def monitored(ctx):
    mon = monitors.CallMonitor(ctx, inputs=True, log=True)
    rounds = ctx.scale(2, 12)
    state = random.getstate()
    for rep in range(2):     # the same programs twice: every call of the second pass has an equal one in the first
        monitors.run_workloads(ctx, mon, rounds)
    random.setstate(state)
    repeated = mon.check_log()
    ctx.extra["log_repeated"] = repeated


SECTIONS = [("histories", histories), ("schedules", schedules), ("aliasing", aliasing), ("edges", edges), ("containers", sequences), ("refilled containers", refilled), ("similar arrays", similar), ("monitored programs", monitored)]
