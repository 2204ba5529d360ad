"""C25: repeated use doesn't accumulate memory, open files, processes or threads."""
import gc
import io
import multiprocessing as mp
import os
import shutil
import tempfile
import threading
import time
import tracemalloc
import warnings
from contextlib import redirect_stdout
import numpy as np
from .. import oracle as o
from .c12 import compile_now

LEVEL = "exploration"
RULE = ("A case is one kind of operation repeated many times with new inputs each time (after a warming up), with the traced memory, open files, child processes and threads after "
        "each part of the repetitions; non-trivial if at least 20 repetitions were done; distinct by the kind of operation and its random inputs.")
ASSUMPTIONS = ["Memory is traced by tracemalloc after a full garbage collection; growth is judged if it goes on in two successive parts of the repetitions, thus caches which stop "
               "growing during the warming up or the first part are no violation.", "New figures are left open by documented purpose: only plotting on the same figures (a provided one, or one of the same name) is repeated."]


def measure(until=None):
    """Traced memory, open files, children and threads after collection (waiting shortly for what ends asynchronously)."""
    for attempt in range(60):
        gc.collect()
        res = dict(memory=tracemalloc.get_traced_memory()[0], files=len(os.listdir("/proc/self/fd")), children=len(mp.active_children()), threads=threading.active_count())
        if until is None or all(res[k] <= until[k] for k in ("files", "children", "threads")):
            break
        time.sleep(0.05)
    return res


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with redirect_stdout(io.StringIO()):
            return fn()


def identity(x):
    return x


def failing(x):
    raise RuntimeError("no result")


def polynomials(rng, folder):
    from zernpy import ZernPol
    orders = o.all_orders(16); zs = {x: ZernPol(m=x[0], n=x[1]) for x in orders}; high = ZernPol(m=4, n=48)
    pairs = [orders[i] for i in rng.integers(0, len(orders), 64)]; state = dict(k=0)

    def step():
        state["k"] += 1; mn = pairs[state["k"] % len(pairs)]; z = zs[mn] if state["k"] % 2 else ZernPol(m=mn[0], n=mn[1])
        r, t = rng.random(60), rng.random(60)*6.28; x, y = float(rng.random()), float(rng.random()*6)
        z.polynomial_value(r, t); z.polynomial_value(x, y); z.polynomial_value(x, y, True); z.radial(r); z.radial(x); z.radial_dr(r); z.radial_dr(x, use_exact_eq=True); z.triangular(t)
        z.triangular_dtheta(y); z.normf(); str(z); z == zs[mn]; z.get_polynomial_name()
        if state["k"] % 1000 == 1:
            high.radial(x)
    return step, 1500, 6e4


def arrays(rng, folder):
    from zernpy import ZernPol
    zs = [ZernPol(osa=i) for i in (0, 4, 12, 60, 100, 150)]

    def step():
        r, t = rng.random(8000), rng.random(8000)*6.28; z = zs[int(rng.integers(len(zs)))]
        z.polynomial_value(r, t); z.radial(r); z.radial_dr(r); z.triangular(t); z.triangular_dtheta(t)
        ZernPol.sum_zernikes([1.0, 2.0], zs[1:3], r, t); ZernPol.sum_zernikes(list(rng.random(2)), zs[1:3], r[:90], t[:80], True); ZernPol.gen_zernikes_surface([0.5], [z], 0.05, 0.1); ZernPol.gen_equal_polar_mesh(int(rng.integers(5, 9000)))
    return step, 60, 6e4


def indices(rng, folder):
    from zernpy import ZernPol
    def step():  # noqa: E306
        i = int(rng.integers(0, 1540)); m, n = ZernPol.index2orders(osa_index=i); ZernPol.osa2noll(i); ZernPol.noll2osa(i + 1); ZernPol.osa2fringe(i); ZernPol.get_osa_index(m, n); ZernPol(osa=i)
        for bad in (dict(osa=-int(rng.integers(1, 10**6))), dict(m=1, n=int(rng.integers(100, 10**6))), dict(noll=0), {}):
            try:
                ZernPol(**bad)
            except ValueError:
                pass
    return step, 600, 6e4


def rejected(rng, folder):
    from zernpy import ZernPol, ZernPSF, fit_polynomials
    z = ZernPol(m=1, n=3); psf = ZernPSF(z); quiet(lambda: psf.set_physical_props(0.5, 0.5, 0.1, 0.1))

    def step():
        big = 1.0 + rng.random(3000); img = rng.random((30, 40))
        for f in (lambda: z.polynomial_value(big, big), lambda: z.radial(-big), lambda: z.polynomial_value(rng.random(5), rng.random(6)), lambda: ZernPol.sum_zernikes([1.0], [z, z], 0.1, 0.2),
                  lambda: ZernPol.sum_zernikes([1.0], [big], 0.1, 0.2), lambda: fit_polynomials(img, (z, z)), lambda: fit_polynomials(big, (z,)), lambda: ZernPSF([z, z]), lambda: ZernPSF(list(big)),
                  lambda: psf.set_physical_props(5.0, 1.0, 0.1, 0.1), lambda: psf.set_physical_props(0.5, 0.5, list(big), 0.1), lambda: psf.set_calculation_props(1, 20, 36), lambda: psf.crop_kernel(0.9)):
            try:
                quiet(f)
            except ValueError:
                pass
    return step, 60, 6e4


def images(rng, folder):
    from zernpy import ZernPol, generate_phases_image, generate_random_phases, fit_polynomials, fit_polynomials_vectors, generate_polynomials
    ps = generate_polynomials(3)

    def step():
        w, h = [int(x) for x in rng.integers(24, 64, 2)]; img = quiet(lambda: generate_phases_image(ps[:4], tuple(rng.random(4)), w, h)); quiet(lambda: fit_polynomials(img, ps[:6], crop_radius=float(rng.uniform(0.6, 1)), return_cropped_image=True))
        quiet(lambda: generate_random_phases(2, 24, 25)); n = int(rng.integers(60, 300)); fit_polynomials_vectors(ps[:5], rng.random(n), rng.random(n), rng.random(n)*6.28); generate_polynomials(6)
    return step, 16, 6e4


def plots(rng, folder):
    """Plotting again on the same figures."""
    import matplotlib; matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    from zernpy import ZernPol, ZernPSF
    z = ZernPol(m=2, n=4); p = ZernPSF(z); plt.close("all"); figs = [plt.figure("a"), plt.figure("b")]; R, T = np.linspace(0, 1, 12), np.linspace(0, 6.28, 16); state = dict(k=0)

    def step():
        state["k"] += 1; p.kernel = rng.random((9, 9)); p.kernel_size = 9; quiet(lambda: (p.plot_kernel("same"), p.visualize_convolution(3.0, 100)))
        S = ZernPol.sum_zernikes([0.3, float(rng.random())], [z, ZernPol(m=0, n=2)], R, T, get_surface=True)
        for f, kind in zip(figs, ("2d", "3d")):
            from zernpy.zernikepol import zernikes_surface
            quiet(lambda: ZernPol.plot_sum_zernikes_on_fig(f, use_defaults=False, zernikes_sum_surface=zernikes_surface(S, R, T), projection=kind, show_range=bool(state["k"] % 2)))  # noqa: B023
        if len(plt.get_fignums()) != 5:
            raise AssertionError(f"{len(plt.get_fignums())} figures are open instead of 5")
    return step, 12, 5e5


def psfs(rng, folder):
    from zernpy import ZernPol, ZernPSF
    z = ZernPol(m=2, n=4); z2 = ZernPol(m=-1, n=3); state = dict(k=0)

    def step():
        state["k"] += 1
        for acc in (True, False):
            for many in (True, False):
                if not acc and state["k"] % 8 != (0 if many else 4):
                    continue
                p = ZernPSF([z, z2] if many else z); a = float(rng.uniform(-0.2, 0.2)); NA = float(rng.uniform(0.3, 1.2))
                quiet(lambda: (p.set_physical_props(NA, 0.5, [a, 0.1] if many else a, float(rng.uniform(0.05, 0.09))), p.set_calculation_props(11 if acc else 3, int(rng.integers(20, 30)), int(rng.integers(36, 50))),  # noqa: B023
                               p.calculate_psf_kernel(accelerated=acc), p.calculate_psf_kernel(True, False, True, acc)))  # noqa: B023
                p.convolute_img(rng.random((64, 64))); p.kernel = rng.random((41, 41)); p.kernel_size = 41; p.crop_kernel(0.3)
    return step, 24, 4e4


def files(rng, folder):
    from zernpy import ZernPol, ZernPSF
    p = ZernPSF(ZernPol(m=1, n=3)); quiet(lambda: p.set_physical_props(0.5, 0.5, 0.1, 0.1))
    q = ZernPSF([ZernPol(osa=4), ZernPol(osa=5)]); quiet(lambda: q.set_physical_props(0.5, 0.5, [0.1, 0.2], 0.1))
    with open(os.path.join(folder, "broken.json"), "w") as f:
        f.write("{'broken")

    def step():
        for x in (p, q):
            x.kernel = rng.random((21, 21)); x.kernel_size = 21; quiet(lambda: x.save_json(folder, overwrite=True))  # noqa: B023
            path = x.json_file_path; new = ZernPSF(ZernPol(osa=int(rng.integers(0, 20)))); quiet(lambda: (new.read_json(path), new.read_json(os.path.join(folder, "missing.json")), x.save_json(folder)))  # noqa: B023
            try:
                quiet(lambda: new.read_json(os.path.join(folder, "broken.json")))  # noqa: B023
            except (ValueError, KeyError, OSError):
                pass
            x.kernel = np.array([[object()]*21]*21)
            try:
                quiet(lambda: x.save_json(folder, overwrite=True))  # noqa: B023
            except Exception:  # noqa: B902
                pass
    return step, 30, 9e4


def managers(rng, folder):
    from zernpy.utils.intmproc import DispenserManager
    state = dict(k=0)

    def step():
        state["k"] += 1; d = DispenserManager(failing if state["k"] % 4 == 3 else identity, [rng.random(2000) for _ in range(6)], 2)
        try:
            d.compute()
            if state["k"] % 2:
                d.update_params([rng.random(3000) for _ in range(8)]); d.compute()
        except RuntimeError:
            pass
        if state["k"] % 4 != 1:
            d.close()
        del d  # a manager which isn't used any more ends its workers
    return step, 8, 0.15e6


def parallel(rng, folder):
    from zernpy import ZernPol, ZernPSF
    keep = ZernPSF(ZernPol(m=1, n=3)); quiet(lambda: (keep.set_physical_props(0.5, 0.5, 0.1, 0.1), keep.set_calculation_props(3, 20, 36)))

    def step():
        keep.initialize_parallel_workers(); quiet(keep.get_kernel_parallel); keep.initialize_parallel_workers(); keep.deinitialize_workers(); keep.deinitialize_workers()
        p = ZernPSF(ZernPol(m=2, n=2)); quiet(lambda: (p.set_physical_props(0.5, 0.5, 0.1, 0.1), p.set_calculation_props(3, 20, 36))); p.initialize_parallel_workers(); quiet(lambda: p.get_psf_point_r_parallel(0.4, 0.5)); p.deinitialize_workers()
    return step, 5, 0.15e6


KINDS = dict(polynomials=polynomials, plots=plots, arrays=arrays, indices=indices, rejected=rejected, images=images, psfs=psfs, files=files, managers=managers, parallel=parallel)


def kind_of(ctx, item):
    name, factor = item; rng = ctx.rng("kind", name); folder = tempfile.mkdtemp(prefix="zmon25")
    try:
        with ctx.guard("repeated operations work"):
            step, count, limit = KINDS[name](rng, folder); count = int(count*factor)
            ctx.case((name, count), nontrivial=2*count >= 20 or name in ("managers", "parallel"), operation=name, repetitions=2*count)
            for _ in range(max(5, count//3)):
                step()
            tracemalloc.start(); marks = [measure()]
            for part in range(2):
                for _ in range(count):
                    step()
                marks.append(measure(marks[0]))
            tracemalloc.stop(); ctx.event(name + " repetitions", 2*count)
            grown = [b["memory"] - a["memory"] for a, b in zip(marks, marks[1:])]
            ctx.ok(not all(g > limit for g in grown), "repeated operations don't accumulate memory", operation=name, repetitions=count, grown=grown, limit=limit)
            for what in ("files", "children", "threads"):
                got = [m[what] for m in marks]
                ctx.ok(not (got[0] < got[1] < got[2] or got[2] > got[0] + 3), f"repeated operations don't accumulate {what}", operation=name, repetitions=count, seen=got)
            ctx.extra["grown " + name] = int(max(grown))
    finally:
        tracemalloc.stop(); shutil.rmtree(folder, ignore_errors=True)


def repeated(ctx):
    compile_now()
    for name in ("managers", "parallel"):
        kind_of(ctx, (name, ctx.scale(1, 6)))
    ctx.pmap(kind_of, [(name, ctx.scale(1, 10)) for name in KINDS if name not in ("managers", "parallel")])


def resident(x):
    """Identification, resident memory of the worker, and the parameter sent back."""
    with open("/proc/self/statm") as f:
        return os.getpid(), int(f.read().split()[1])*os.sysconf("SC_PAGE_SIZE"), x


def worker_memory_of(ctx, item):
    """One manager with the same workers used again and again: their memory doesn't grow."""
    from zernpy.utils.intmproc import DispenserManager
    label, count = item; rng = ctx.rng("worker memory", label); workers = int(rng.integers(2, 4)); m = DispenserManager(resident, [None]*workers, workers); seen = []
    ctx.case(("worker memory", label, workers), nontrivial=True, repetitions=3*count)
    try:
        with ctx.guard("repeated computations work"):
            for part in range(4):
                for _ in range(count if part else 6):
                    size = 120000 + int(rng.integers(0, 1000)); m.update_params([rng.random(size) for _ in range(2*workers)])
                    last = {}
                    for pid, rss, _ in m.compute():
                        last[pid] = rss
                    ctx.event("computations with large parameters")
                m.update_params([rng.random(120000) for _ in range(8*workers)]); last = {}
                for pid, rss, _ in m.compute():
                    last[pid] = rss
                seen.append(sum(last.values())/len(last))
            grown = [b - a for a, b in zip(seen, seen[1:])]; limit = 0.25*count*2*120000*8  # half of what would be kept of the parameters or of the results
            ctx.ok(not all(g > limit for g in grown), "workers don't accumulate memory", seen=seen, grown=grown, limit=limit)
            ctx.extra["grown memory of a worker"] = int(max(grown))
    finally:
        m.close()


def worker_memory(ctx):
    for i in range(ctx.scale(1, 3)):
        worker_memory_of(ctx, (i, ctx.scale(10, 40)))


SECTIONS = [("repeated", repeated), ("memory of workers", worker_memory)]
