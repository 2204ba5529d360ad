"""Online monitors on the public methods of ZernPol: every call made by anybody (library code included) is observed.

Also an event log of the calls, checked offline (functional consistency: equal arguments - equal results, whoever called and
whatever happened in between).
"""
import hashlib
import threading
import warnings
from contextlib import contextmanager
import numpy as np
from . import oracle as o

METHODS = ("polynomial_value", "radial", "radial_dr", "triangular", "triangular_dtheta")


def digest(x):
    if isinstance(x, np.ndarray):
        return hashlib.blake2b(repr((x.shape, str(x.dtype))).encode() + np.ascontiguousarray(x).tobytes(), digest_size=12).hexdigest()
    return hashlib.blake2b(repr((type(x).__name__, x)).encode(), digest_size=12).hexdigest()


def expected(name, m, n, args, exact):
    """(oracle values, tolerance) at the elements given by args, or None if the form is not defined there."""
    if name == "polynomial_value":
        if exact and n > 40:
            return None
        return o.zernike(m, n, *args), o.tol_zernike(n, m, *args)
    if name == "radial":
        if exact and n > 40:
            return None
        return o.radial(n, m, args[0]), o.tol_radial(n, m, args[0])
    if name == "radial_dr":
        if exact and n > 38:
            return None
        return o.radial_dr(n, m, args[0]), o.tol_radial_dr(n, m, args[0])
    t = np.asarray(args[0], float)
    tol = 8*o.EPS*(2 + abs(m)*np.maximum(np.abs(t), 2*np.pi))
    if name == "triangular":
        return o.triangular(m, t), tol
    return o.triangular_dtheta(m, t), tol*max(abs(m), 1)


class CallMonitor:
    def __init__(self, ctx, values=(), shapes=False, inputs=False, log=False, sample=6):
        self.ctx, self.values, self.shapes, self.inputs, self.log_on, self.sample = ctx, set(values), shapes, inputs, log, sample
        self.log = []      # (sequence number, thread, method, (m, n), digests of arguments, digest of result)
        self.rng = ctx.rng("monitor")
        self.tls = threading.local()
        self.lock = threading.Lock()
        self.kinds = set()

    def observe(self, cls, name, orig):
        mon = self; ctx = self.ctx

        def wrapper(zp, *args, **kwargs):
            if getattr(mon.tls, "busy", 0):
                return orig(zp, *args, **kwargs)
            names = ("r", "theta", "use_exact_eq") if name == "polynomial_value" else (
                ("theta",) if name.startswith("triangular") else ("r", "use_exact_eq"))
            bound = dict(zip(names, args)); bound.update(kwargs)
            exact = bool(bound.get("use_exact_eq", False))
            coords = [bound[k] for k in names if k in bound and k != "use_exact_eq"]
            before = [digest(c) for c in coords] if (mon.inputs or mon.log_on) else None
            res = orig(zp, *args, **kwargs)
            mon.tls.busy = 1
            try:
                mon.after(zp, name, exact, coords, before, res)
            finally:
                mon.tls.busy = 0
            return res
        wrapper.__name__ = name; wrapper.__doc__ = orig.__doc__; wrapper.__wrapped__ = orig
        return wrapper

    def after(self, zp, name, exact, coords, before, res):
        ctx = self.ctx
        m, n = zp.get_mn_orders()
        ctx.event(f"call {name}")
        arrs = [np.asarray(c) for c in coords]
        shape = np.broadcast_shapes(*[a.shape for a in arrs])
        self.kinds.add((name, m, n, exact, tuple(a.ndim for a in arrs)))
        where = dict(method=name, m=m, n=n, exact=exact)
        if self.inputs:
            ctx.ok(before == [digest(c) for c in coords], "monitored call leaves its inputs unchanged", **where)
            if isinstance(res, np.ndarray):
                ctx.ok(not any(isinstance(c, np.ndarray) and np.shares_memory(c, res) for c in coords),
                       "monitored call returns memory of its own", **where)
        if self.log_on:
            with self.lock:
                self.log.append((len(self.log), threading.get_ident(), (name, m, n, exact), tuple(before), np.array(res)))
        if self.shapes:
            ctx.ok(np.shape(res) == shape, "monitored call returns the common shape", got=np.shape(res), want=shape, **where)
            ctx.ok(np.asarray(res).dtype.kind == "f", "monitored call returns real floating point numbers", **where)
        if name in self.values and np.shape(res) == shape:
            flat = [np.broadcast_to(a, shape).ravel() for a in arrs]; got = np.asarray(res, float).ravel()
            if got.size == 0:
                return
            idx = np.arange(got.size) if got.size <= self.sample else self.rng.integers(0, got.size, self.sample)
            if arrs[0].dtype == np.float32:
                return
            e = expected(name, m, n, [f[idx].astype(float) for f in flat], exact)
            if e is not None:
                bad = ~(np.abs(got[idx] - e[0]) <= e[1])
                ctx.ok(not bad.any(), "monitored call returns the defined value", at=[f[idx][bad][:2] for f in flat],
                       got=got[idx][bad][:2], want=e[0][bad][:2], **where)

    @staticmethod
    def slack(what, res):
        """Rounding differences between equal calls (as by vectorized code depending on the alignment of memory) are not judged."""
        name, m, n, exact = what
        r = np.array([1.0])
        t = o.tol_zernike(n, m, r, r) if name == "polynomial_value" else o.tol_radial(n, m, r) if name == "radial" else o.tol_radial_dr(n, m, r) if name == "radial_dr" else 1e-12*(1 + abs(m))
        return 0.1*np.max(t)

    def check_log(self, rule="equal calls gave equal results (offline check of the event log)"):
        """Functional consistency of the recorded history."""
        seen = {}
        repeated = 0
        for seq, thread, what, args, res in self.log:
            key = (what, args)
            if key in seen:
                repeated += 1
                a = seen[key][1]
                equal = a.shape == res.shape and a.dtype == res.dtype and (np.array_equal(a, res, equal_nan=True) or np.all(np.abs(a - res) <= self.slack(what, res)))
                self.ctx.ok(equal, rule, call=what, first_event=seen[key][0], this_event=seq)
            else:
                seen[key] = (seq, res)
        self.ctx.event("log events", len(self.log)); self.ctx.event("log repeated calls", repeated)
        self.ctx.extra["threads_in_log"] = len({e[1] for e in self.log})
        return repeated


@contextmanager
def installed(monitor):
    from zernpy import ZernPol
    saved = {}
    for name in METHODS:
        orig = ZernPol.__dict__[name]
        saved[name] = orig
        setattr(ZernPol, name, monitor.observe(ZernPol, name, orig))
    try:
        yield monitor
    finally:
        for name, orig in saved.items():
            setattr(ZernPol, name, orig)


# ---------------------------------------------------------------- realistic programs run under the monitors
def workload_fit(rng):
    from zernpy import generate_random_phases, fit_polynomials, generate_polynomials, fit_polynomials_vectors, ZernPol
    img, amps, pols = generate_random_phases(max_order=int(rng.integers(1, 6)), img_width=33, img_height=33)
    fit_polynomials(img, pols, return_cropped_image=True)
    fit_polynomials(img, pols[1:], crop_radius=0.8, suppress_warnings=True)
    r = np.linspace(0.1, 1.0, 12); t = np.linspace(0, 5.9, 9)
    ps = generate_polynomials(3)
    fit_polynomials_vectors(ps, ZernPol.sum_zernikes([0.1*i for i in range(len(ps))], ps, r, t, get_surface=True).ravel(), r, t)


def workload_surface(rng):
    from zernpy import ZernPol
    import matplotlib.pyplot as plt
    ps = [ZernPol(osa=int(i)) for i in rng.choice(120, 5, replace=False)]
    cs = rng.uniform(-1, 1, 5).tolist()
    ZernPol.gen_zernikes_surface(cs, ps, r_step=0.05, theta_rad_step=0.2)
    ZernPol.gen_zernikes_surface(cs, ps, equal_n_coordinates=True, n_points=20)
    fig = plt.figure()
    ZernPol.plot_sum_zernikes_on_fig(fig, cs, ps, use_defaults=False,
                                     zernikes_sum_surface=ZernPol.gen_zernikes_surface(cs, ps, r_step=0.1, theta_rad_step=0.3))
    plt.close("all")


def workload_values(rng):
    from zernpy import ZernPol
    for _ in range(12):
        z = ZernPol(noll=int(rng.integers(1, 800)))
        r = rng.random(int(rng.integers(1, 40))); t = rng.uniform(0, 2*np.pi, r.size)
        z.polynomial_value(r, t); z.radial(r.tolist()); z.radial_dr(float(r[0])); z.triangular(t); z.triangular_dtheta(tuple(t))
        z.polynomial_value(float(r[0]), t, use_exact_eq=z.get_mn_orders()[1] <= 40)


def workload_psf(rng):
    from zernpy import ZernPol, ZernPSF
    from contextlib import redirect_stdout
    import io
    with redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = ZernPSF(ZernPol(osa=int(rng.integers(1, 28))))
        p.set_physical_props(NA=0.5, wavelength=0.6, expansion_coeff=0.2, pixel_physical_size=0.15)
        p.set_calculation_props(kernel_size=3, n_integration_points_r=24, n_integration_points_phi=36)
        p.calculate_psf_kernel(accelerated=False)
        q = ZernPSF([ZernPol(osa=3), ZernPol(osa=int(rng.integers(4, 40)))])
        q.set_physical_props(NA=0.5, wavelength=0.6, expansion_coeff=[0.2, -0.1], pixel_physical_size=0.15)
        q.set_calculation_props(kernel_size=3, n_integration_points_r=24, n_integration_points_phi=36)
        q.calculate_psf_kernel(accelerated=False)


WORKLOADS = (workload_fit, workload_surface, workload_values, workload_psf)


def run_workloads(ctx, monitor, rounds):
    import random
    rng = ctx.rng("workloads")
    with installed(monitor):
        for i in range(rounds):
            for w in WORKLOADS:
                ctx.case((w.__name__, i), sample=(i == 0))
                random.seed(int(rng.integers(2**31)))
                with ctx.guard("monitored workload runs without unexpected exception"):
                    w(rng)
    ctx.extra["monitored_distinct_call_kinds"] = len(monitor.kinds)
