"""C24: documented ways of calling: parameters by position, by keyword, or omitted give the same results."""
import copy
import os
import random
import shutil
import tempfile
import warnings
from pathlib import Path
import numpy as np
from .. import oracle as o

LEVEL = "exploration"
RULE = ("A case is one public function or method with generated arguments, called with all parameters given by keyword and again with a random part of them by position (in the "
        "documented order) and those equal to the documented default left out; non-trivial if the calls differ; distinct by the function, the arguments and the form of the call.")
ASSUMPTIONS = ["The documented parameter names, their order and defaults are those of the API documentation at the pinned commit.",
               "Results are compared up to 1e-12 relative to the largest value."]
REQUIRED = object()


def equal(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, bytes, bool)) or isinstance(b, (str, bytes, bool)):
        return type(a) is type(b) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if type(a).__name__ == "ZernPol":
        return type(b).__name__ == "ZernPol" and a.get_indices() == b.get_indices()
    A, B = np.asarray(a), np.asarray(b)
    if A.shape != B.shape or A.dtype != B.dtype:
        return False
    if A.dtype == object:
        return all(equal(x, y) for x, y in zip(A.ravel(), B.ravel()))
    if A.dtype.kind not in "fciub":
        return bool(np.all(A == B))
    A = A.astype(complex); B = B.astype(complex); top = max(1e-300, float(np.max(np.abs(A), initial=0.0))) if A.size else 1.0
    return bool(np.all((np.abs(A - B) <= 1e-12*top) | (np.isnan(A) & np.isnan(B))))


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def picture():
    """Everything drawn on the open figures."""
    import matplotlib.pyplot as plt
    out = []
    for i in plt.get_fignums():
        f = plt.figure(i); parts = []
        for ax in f.axes:
            parts.append([ax.name, ax.get_title()])
            for c in list(ax.collections) + list(ax.images):
                arr = c.get_array(); cm = c.get_cmap().name if c.get_cmap() is not None else ""
                parts.append([type(c).__name__, cm, None if arr is None else np.array(np.ma.filled(np.ma.asarray(arr, float), np.nan))])
        out.append([f.get_label(), parts])
    return out


def drawn(fn):
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        res = fn(); res = None if type(res).__name__ == "Figure" else res
        return [res, picture()]
    finally:
        plt.close("all")


def state(psf):
    names = ("kernel", "kernel_size", "NA", "wavelength", "expansion_coeff", "pixel_size", "pixel_size_nyquist", "alpha", "n_int_r_points", "n_int_phi_points", "k", "coefficients", "amplitudes")
    return [copy.copy(getattr(psf, n, None)) for n in names]


def entries(rng, folder):
    """(name, function to call, [(parameter, default, value)], how to observe a call)."""
    import matplotlib.pyplot as plt
    import zernpy
    from zernpy import ZernPol, ZernPSF
    from zernpy.zernikepol import polar_vectors
    from zernpy.utils.intmproc import DispenserManager
    orders = o.all_orders(8); R = REQUIRED

    def pol():
        m, n = orders[int(rng.integers(len(orders)))]
        return ZernPol(m=m, n=n)

    def pols(k, top=5):
        al = o.all_orders(top); return [ZernPol(m=al[i][0], n=al[i][1]) for i in rng.choice(len(al), k, replace=False)]

    def flag(p=0.5):
        return bool(rng.random() < p)

    def often(default, *others):
        return default if rng.random() < 0.5 else others[int(rng.integers(len(others)))]
    z = pol(); count = int(rng.integers(1, 9)); r = rng.random(count); t = rng.random(count)*6.28; i = int(rng.integers(0, 400)); plain = lambda f: f()  # noqa: E731
    m, n = orders[int(rng.integers(len(orders)))]
    out = [("polynomial_value", z.polynomial_value, [("r", R, r), ("theta", R, t), ("use_exact_eq", False, flag())], plain),
           ("radial", z.radial, [("r", R, r), ("use_exact_eq", False, flag())], plain), ("radial_dr", z.radial_dr, [("r", R, r), ("use_exact_eq", False, flag())], plain),
           ("triangular", z.triangular, [("theta", R, t)], plain), ("triangular_dtheta", z.triangular_dtheta, [("theta", R, t)], plain),
           ("get_polynomial_name", z.get_polynomial_name, [("short", False, flag())], plain)]
    for f in ("get_osa_index", "get_noll_index", "get_fringe_index"):
        out.append((f, getattr(ZernPol, f), [("m", R, m), ("n", R, n)], plain))
    for f, p in (("osa2noll", "osa_index"), ("osa2fringe", "osa_index"), ("noll2osa", "noll_index"), ("fringe2osa", "fringe_index")):
        v = dict(osa_index=i, noll_index=i + 1, fringe_index=int(rng.integers(1, 200)))[p]
        out.append((f, getattr(ZernPol, f), [(p, R, v)], plain))
    # exact equation: orders up to 38 only, here up to 8; high orders where the two forms differ visibly
    high = ZernPol(m=int(rng.choice([0, 2, -4])), n=int(rng.choice([42, 44, 46])))
    out += [("polynomial_value", high.polynomial_value, [("r", R, r), ("theta", R, t), ("use_exact_eq", False, flag())], plain),
            ("radial", high.radial, [("r", R, r), ("use_exact_eq", False, flag())], plain), ("radial_dr", high.radial_dr, [("r", R, r), ("use_exact_eq", False, flag())], plain)]
    k = int(rng.integers(1, 5)); ps = pols(k); cs = rng.normal(size=k).tolist(); c2 = rng.normal(size=k)
    out += [("sum_zernikes", ZernPol.sum_zernikes, [("coefficients", R, cs), ("polynomials", R, ps), ("r", R, r), ("theta", R, t), ("get_surface", False, flag())], plain),
            ("gen_polar_coordinates", ZernPol.gen_polar_coordinates, [("r_step", 0.01, often(0.01, 0.1, 0.05)), ("theta_rad_step", 0.01309, often(0.01309, 0.1, 0.3))], plain),
            ("gen_equal_polar_mesh", ZernPol.gen_equal_polar_mesh, [("n_points", 250, often(250, 10, 251))], plain),
            ("gen_zernikes_surface", ZernPol.gen_zernikes_surface, [("coefficients", R, cs), ("polynomials", R, ps), ("r_step", 0.01, often(0.01, 0.1)),
             ("theta_rad_step", 0.0174533, often(0.0174533, 0.2)), ("equal_n_coordinates", False, flag()), ("n_points", 250, often(250, 17))], plain),
            ("generate_polynomials", zernpy.generate_polynomials, [("max_order", 10, often(10, 0, 3, 9, 11))], plain),
            ("generate_phases_image", zernpy.generate_phases_image, [("polynomials", R, tuple(ps)), ("polynomials_amplitudes", R, tuple(cs)),
             ("img_width", 513, often(513, 30, 61)), ("img_height", 513, often(513, 31, 50))], plain),
            ("generate_random_phases", zernpy.generate_random_phases, [("max_order", 4, often(4, 2, 3)), ("img_width", 513, often(513, 40, 25)), ("img_height", 513, often(513, 41, 24)),
             ("round_digits", 4, often(4, 2, 7))], "random"),
            ("fit_polynomials", zernpy.fit_polynomials, [("phases_image", R, rng.normal(size=(int(rng.integers(20, 40)), int(rng.integers(20, 40))))), ("polynomials", R, tuple(ps)),
             ("crop_radius", 1.0, often(1.0, 0.7, 0.9)), ("suppress_warnings", False, flag()), ("strict_circle_border", False, flag()), ("round_digits", 4, often(4, 1, 8, 0)),
             ("return_cropped_image", False, flag())], "warned"),
            ("fit_polynomials_vectors", zernpy.fit_polynomials_vectors, [("polynomials", R, tuple(ps)), ("phases_vector", R, rng.normal(size=40)), ("radii_vector", R, rng.random(40)),
             ("thetas_vector", R, rng.random(40)*6.28), ("round_digits", 4, often(4, 2, 9, 0, 0))], plain)]
    pv = polar_vectors(np.linspace(0, 1, 7), np.linspace(0, 6.28, 9)); default = flag(0.7); fig = dict(n=0)
    out.append(("plot_profile", ZernPol.plot_profile, [("polynomial", R, z), ("color_map", "coolwarm", often("coolwarm", "jet", "viridis")), ("show_title", True, flag(0.6)),
                ("use_defaults", True, default), ("projection", "2d", often("2d", "3d")), ("polar_coordinates", (), () if default else pv)], drawn))
    surf = quiet(lambda: ZernPol.gen_zernikes_surface(cs, ps, 0.1, 0.2)); default = flag(0.6)

    def on_figure(*args, **kw):
        fig["n"] += 1; f = plt.figure("sum of the polynomials")
        if "figure" in kw:
            kw["figure"] = f
        else:
            args = (f,) + args[1:]
        ret = ZernPol.plot_sum_zernikes_on_fig(*args, **kw)
        return ret is f
    out.append(("plot_sum_zernikes_on_fig", on_figure, [("figure", R, None), ("coefficients", (), cs if default else ()), ("polynomials", (), ps if default else ()), ("use_defaults", True, default),
                ("zernikes_sum_surface", (), () if default else surf), ("show_range", True, flag(0.6)), ("color_map", "coolwarm", often("coolwarm", "jet")), ("projection", "2d", often("2d", "3d"))], drawn))
    # PSF
    NA = float(rng.uniform(0.3, 1.2)); wl = 0.55; px = 0.2*wl/NA; a = float(rng.uniform(-0.3, 0.3))
    small = ZernPol(m=int(rng.choice([-1, 1])), n=3)

    def psf_with(method, observe, prepared=True):
        def call(*args, **kw):
            psf = ZernPSF(small)
            if prepared:
                psf.set_physical_props(NA, wl, a, px); psf.set_calculation_props(5, 20, 36)
            return observe(psf, getattr(psf, method)(*args, **kw))
        return call
    K = rng.random((5, 5)) + 0.1; K9 = np.zeros((9, 9)); K9[1:8, 1:8] = 0.007; K9[2:7, 2:7] = 0.012; K9[3:6, 3:6] = 0.2; K9[4, 4] = 1.0

    def with_kernel(method, observe, kernel):
        def call(*args, **kw):
            psf = ZernPSF(small); psf.kernel = kernel.copy(); psf.kernel_size = len(kernel)
            return observe(psf, getattr(psf, method)(*args, **kw))
        return call
    both = lambda psf, res: [res, state(psf)]  # noqa: E731
    img = rng.integers(0, 250, (12, 14)).astype("uint8") if flag() else rng.random((13, 13))
    acc = [None, True, False][int(rng.integers(3))]
    out += [("set_physical_props", psf_with("set_physical_props", both, False), [("NA", R, NA), ("wavelength", R, wl), ("expansion_coeff", R, a), ("pixel_physical_size", R, px)], plain),
            ("set_calculation_props", psf_with("set_calculation_props", both), [("kernel_size", R, int(rng.choice([3, 7, 9]))), ("n_integration_points_r", R, 45), ("n_integration_points_phi", R, 61)], plain),
            ("calculate_psf_kernel", psf_with("calculate_psf_kernel", both), [("suppress_warnings", False, flag()), ("normalized", True, flag()), ("verbose_info", False, flag(0.3)),
             ("accelerated", None, acc)], "printed"),
            ("get_kernel_parallel", psf_with("get_kernel_parallel", both), [("normalize_values", True, flag())], plain),
            ("get_psf_point_r_parallel", psf_with("get_psf_point_r_parallel", both), [("r", R, float(rng.uniform(0, 6))), ("theta", R, float(rng.uniform(0, 6)))], plain),
            ("convolute_img", with_kernel("convolute_img", both, K), [("image", R, img), ("scale2original", True, flag())], plain),
            ("crop_kernel", with_kernel("crop_kernel", both, K9), [("min_part_of_max", 0.01, often(0.01, 0.005, 0.1, 0.3))], plain),
            ("plot_kernel", with_kernel("plot_kernel", both, K), [("id_str", "", often("", "abc"))], drawn),
            ("visualize_convolution", with_kernel("visualize_convolution", both, K), [("radius", 4.0, often(4.0, 2.0, 6.0)), ("max_intensity", 255, often(255, 100, 1000))], drawn)]

    title = ["plain", "with space", "per%20cent", "hash#tag", "ünï-ß", "a+b=c&d", "dot.json", "q'uote", "[x]"][int(rng.integers(9))]

    def folder_form(place, how):
        return [str(place), place, os.path.relpath(place), str(place) + os.sep, Path(os.path.relpath(place))][how]
    how_path = int(rng.integers(5))

    def saving(*args, **kw):
        place = Path(tempfile.mkdtemp(dir=folder, suffix=title)); psf = ZernPSF(small); psf.set_physical_props(NA, wl, a, px); psf.set_calculation_props(3, 20, 36); psf.kernel = K[:3, :3].copy()
        args = list(args); kw = dict(kw)
        if args:
            args[0] = folder_form(place, how_path)
        else:
            kw["abs_path"] = folder_form(place, how_path)
        psf.save_json(*args, **kw); psf.kernel = K[:3, :3]*2; psf.save_json(*args, **kw)
        files = sorted(place.iterdir());
        if len(files) != 1:
            raise FileNotFoundError(f"{len(files)} files in the given folder {place.name}")
        return [len(files), [f.name for f in files], [f.read_bytes() for f in files]]

    def reading(*args, **kw):
        place = Path(tempfile.mkdtemp(dir=folder, suffix=title)); psf = ZernPSF(small); psf.set_physical_props(NA, wl, a, px); psf.set_calculation_props(3, 20, 36); psf.kernel = K[:3, :3].copy()
        psf.save_json(str(place)); path = next(place.iterdir()); path = [str(path), path, os.path.relpath(path), Path(os.path.relpath(path)), str(path)][how_path]; new = ZernPSF(z); args = list(args); kw = dict(kw)
        if args:
            args[0] = path
        elif "abs_path" in kw:
            kw["abs_path"] = path
        new.read_json(*args, **kw); return state(new)
    out += [("save_json", saving, [("abs_path", R, ""), ("overwrite", False, flag())], plain), ("read_json", reading, [("abs_path", R, "")], plain)]

    def managed(*args, **kw):
        d = DispenserManager(*args, **kw)
        try:
            return [d.workers_number, d.compute()]
        finally:
            d.close()
    out += [("DispenserManager", managed, [("compute_func", R, abs), ("params_list", R, list(range(-9, 3))), ("n_workers", None, often(None, 2, 3)), ("verbose_info", False, flag(0.3))], "printed")]
    return out


def forms_of(ctx, item):
    import io
    import matplotlib
    matplotlib.use("Agg")
    from contextlib import redirect_stdout
    label, count, names = item; rng = ctx.rng("forms", label); folder = tempfile.mkdtemp(prefix="zmon24")

    def observe(how, fn):
        if how == "random":
            np.random.seed(1); random.seed(1); img, amps, ps = quiet(fn)
            v = np.abs(np.asarray(amps)); digits = next((d for d in range(0, 12) if np.allclose(v, np.round(v, d), rtol=0, atol=1e-12)), 12)
            return [np.shape(img), len(amps), [p.get_mn_orders() for p in ps], digits]
        if how == "warned":
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always"); return [fn(), len(w) > 0]
        if how == "printed":
            text = io.StringIO()
            with warnings.catch_warnings(record=True) as w, redirect_stdout(text):
                warnings.simplefilter("always"); res = fn()
            return [res, len([x for x in w if issubclass(x.category, UserWarning)]) > 0, len(text.getvalue()) > 0]
        if how is drawn:
            return quiet(lambda: drawn(fn))
        return quiet(lambda: how(fn))
    try:
        for k in range(count):
            with ctx.guard("public functions can be called as documented"):
                table = entries(rng, folder)
            for name, fn, params, how in table:
                if name not in names:
                    continue
                values = {p: v for p, _, v in params}
                try:
                    ref = observe(how, lambda: fn(**copy.copy(values)))
                except Exception as e:  # noqa: B902
                    ctx.case((name, label, k), function=name); ctx.ok(False, "public functions can be called as documented", function=name, form="keywords", error=f"{type(e).__name__}: {e}"); continue
                n_positional = [len(params)] + [int(x) for x in rng.integers(0, len(params) + 1, 2)]
                for cut in dict.fromkeys(n_positional):
                    args = [v for _, _, v in params[:cut]]; rest = [(p, d, v) for p, d, v in params[cut:]]
                    keep = []
                    for p, d, v in rest:
                        is_default = d is not REQUIRED and type(v) is type(d) and (v is d or (not isinstance(v, np.ndarray) and v == d))
                        if not (is_default and (rng.random() < 0.8)):
                            keep.append((p, v))
                    while len(args) == cut and cut and not keep and params[cut - 1][1] is not REQUIRED and params[cut - 1][2] is params[cut - 1][1] and cut == len(params) and rng.random() < 0.3:
                        args = args[:-1]  # trailing defaults left out
                    order = rng.permutation(len(keep)); kw = {keep[j][0]: keep[j][1] for j in order}
                    d = dict(function=name, positional=len(args), keywords=list(kw), omitted=[p for p, _, _ in rest if p not in kw])
                    ctx.case((name, label, k, cut, tuple(kw)), nontrivial=len(args) > 0 or len(kw) < len(params), **d); ctx.event(name)
                    try:
                        got = observe(how, lambda: fn(*args, **kw))
                    except Exception as e:  # noqa: B902
                        ctx.ok(False, "public functions can be called as documented", error=f"{type(e).__name__}: {e}", **d); continue
                    ctx.ok(equal(ref, got), "parameters by position, by keyword and omitted ones give the same result", got=repr(got)[:300], want=repr(ref)[:300], **d)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


LIGHT = ["polynomial_value", "radial", "radial_dr", "triangular", "triangular_dtheta", "get_polynomial_name", "get_osa_index", "get_noll_index", "get_fringe_index", "osa2noll", "osa2fringe",
         "noll2osa", "fringe2osa", "sum_zernikes", "gen_polar_coordinates", "gen_equal_polar_mesh", "fit_polynomials_vectors", "set_physical_props", "set_calculation_props", "convolute_img",
         "crop_kernel", "save_json", "read_json", "get_psf_point_r_parallel"]
MEDIUM = ["gen_zernikes_surface", "generate_polynomials", "fit_polynomials", "calculate_psf_kernel", "get_kernel_parallel"]
HEAVY = ["generate_phases_image", "generate_random_phases"]
DRAWN = ["plot_profile", "plot_sum_zernikes_on_fig", "plot_kernel", "visualize_convolution"]


def forms(ctx):
    from .c12 import compile_now
    compile_now()
    items = [("light", ctx.scale(40, 600), LIGHT), ("light2", ctx.scale(40, 600), LIGHT), ("medium", ctx.scale(14, 200), MEDIUM), ("medium2", ctx.scale(14, 200), MEDIUM), ("heavy", ctx.scale(4, 40), HEAVY),
             ("heavy2", ctx.scale(4, 40), HEAVY), ("drawn", ctx.scale(6, 70), DRAWN), ("drawn2", ctx.scale(6, 70), DRAWN)]
    ctx.pmap(forms_of, items)


def workers(ctx):
    forms_of(ctx, ("workers", ctx.scale(4, 30), ["DispenserManager"]))


def exports(ctx):
    """The documented import statements."""
    import subprocess
    import sys
    from ..core import SRC
    names = ["ZernPol", "ZernPSF", "generate_polynomials", "fit_polynomials", "generate_random_phases", "generate_phases_image", "fit_polynomials_vectors", "force_get_psf_compilation"]
    for stmt, test in [("from zernpy import *", "print(all(callable(globals()[x]) for x in %r))" % names), ("from zernpy import " + ", ".join(names), "print(True)"),
                       ("import zernpy", "print(all(hasattr(zernpy, x) for x in %r))" % names), ("from zernpy.zernikepol import *", "print(callable(ZernPol) and callable(fit_polynomials))"),
                       ("from zernpy.zernpsf import *", "print(callable(ZernPSF) and callable(force_get_psf_compilation))")]:
        ctx.case(stmt)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", f"import sys; sys.path.insert(0, {str(SRC)!r})\n{stmt}\n{test}"], capture_output=True, text=True, timeout=200, env={"MPLBACKEND": "Agg", "PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}, cwd="/")
        ctx.ok(p.returncode == 0 and p.stdout.strip() == "True", "documented names can be imported", statement=stmt, output=p.stdout[-200:], error=p.stderr[-300:])


SECTIONS = [("forms", forms), ("workers", workers), ("exports", exports)]
