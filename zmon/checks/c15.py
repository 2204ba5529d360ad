"""C15: JSON files of PSF objects: histories of saving and reading with several objects, against a model of the folder."""
import json
import os
import resource
import shutil
import signal
import tempfile
import warnings
from pathlib import Path
import numpy as np
from .. import oracle as o
from ..forked import fork_call
from .c11 import calculate, physical, amplitudes
from .c14 import orders

LEVEL = "exploration"
RULE = ("A case is one saving or reading step of a history with several PSF objects and files; non-trivial if a file written by another object or an "
        "earlier state was involved; distinct by history and step.")
ASSUMPTIONS = ["Writing failures are produced with a file size limit of the process (EFBIG), serialization failures with values json can't represent.",
               "All files are in a scratch folder, except one written to and removed from the default folder of the package."]


def quiet(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn()
    return r, w


def state(psf):
    single = psf.zernpol is not None
    d = dict(kernel=np.array(psf.kernel), size=psf.kernel_size, NA=psf.NA, wavelength=psf.wavelength, pixel=psf.pixel_size, n_r=psf.n_int_r_points,
             n_phi=psf.n_int_phi_points, orders=orders(psf), airy=bool(psf.airy) if single else None)
    if single:
        d["coeff"] = [psf.expansion_coeff]; d["alpha"] = [psf.alpha]
    else:
        d["coeff"] = None if psf.coefficients is None else np.array(psf.coefficients).tolist()
        d["alpha"] = None if psf.amplitudes is None else np.array(psf.amplitudes).tolist()
    return d


def difference(a, b):
    out = []
    for k in a:
        if k == "kernel":
            same = a[k].shape == b[k].shape and a[k].dtype == b[k].dtype and np.array_equal(a[k], b[k])
        elif k == "alpha" and a[k] is not None and b[k] is not None:
            same = len(a[k]) == len(b[k]) and np.allclose(a[k], b[k], rtol=1e-14, atol=0)
        else:
            same = a[k] == b[k]
        if not same:
            out.append(k)
    return out


def random_psf(rng, coefficient=None, terms=None):
    from zernpy import ZernPol, ZernPSF
    if terms is None:
        count = int(rng.choice([1, 1, 2, 3])); table = o.osa_table(7 if rng.random() < 0.8 else 20)
        terms = [table[i] for i in rng.choice(len(table), count, replace=False)]
        if rng.random() < 0.25:
            terms[0] = (0, 0); terms = list(dict.fromkeys(terms))
    pols = [ZernPol(m=m, n=n) for m, n in terms]
    return ZernPSF(pols[0] if len(pols) == 1 and rng.random() < 0.7 else pols), terms


def setup(rng, psf, terms, coeffs=None):
    NA, wl, px = physical(rng)
    if coeffs is None:
        coeffs = [float(a*wl) for a in amplitudes(rng, terms)]
    size = int(rng.choice([3, 3, 5])); n_r, n_phi = int(rng.choice([20, 23, 31])), int(rng.choice([36, 37, 45]))
    if rng.random() < 0.3:  # numbers of other types
        kind = [np.float32, np.float64, np.float16][int(rng.integers(3))]; whole = [np.int64, np.int32, np.uint16][int(rng.integers(3))]
        NA, wl, px = kind(NA*0.97), kind(wl), kind(px*0.97); size, n_r, n_phi = whole(size), whole(n_r), whole(n_phi)
        coeffs = [float(kind(c)) for c in coeffs]; given = np.array(coeffs, dtype=kind) if len(terms) > 1 else kind(coeffs[0])
    else:
        given = coeffs[0] if len(terms) == 1 else coeffs
    quiet(lambda: psf.set_physical_props(NA, wl, given, px))
    quiet(lambda: psf.set_calculation_props(size, n_r, n_phi))
    return coeffs


def compute(rng, psf):
    return calculate(psf, normalized=bool(rng.integers(2)), accelerated=False, suppress_warnings=True)


def target(rng):
    """An object in some state, to read a file into."""
    psf, terms = random_psf(rng)
    kind = int(rng.integers(0, 3))
    if kind:
        setup(rng, psf, terms)
    if kind == 2:
        compute(rng, psf)
    return psf


def check_file(ctx, path, want):
    """The file itself: documented keys."""
    data = json.loads(Path(path).read_text())
    ctx.ok(np.array_equal(np.asarray(data["PSF Kernel"]), want["kernel"]), "the file holds the kernel of the saved object")
    ctx.ok((data["NA"], data["Wavelength"], data["Pixel Size"], data["Kernel Size"]) == (want["NA"], want["wavelength"], want["pixel"], want["size"]),
           "the file holds the properties of the saved object")


def restored(ctx, rng, psf, want, how, recompute=True):
    got = state(psf); diff = difference(want, got)
    if not ctx.ok(not diff, "reading restores the saved state", differs=diff, got={k: got[k] for k in diff}, want={k: want[k] for k in diff}, how=how):
        return
    if recompute:
        quiet(lambda: None)
        A = calculate(psf, normalized=False, accelerated=False, suppress_warnings=True).copy()
        terms = [want["orders"]] if isinstance(want["orders"][0], int) else list(want["orders"])
        from zernpy import ZernPol, ZernPSF
        pols = [ZernPol(m=m, n=n) for m, n in terms]; ref = ZernPSF(pols[0] if len(pols) == 1 else pols)
        quiet(lambda: ref.set_physical_props(want["NA"], want["wavelength"], want["coeff"][0] if len(pols) == 1 else want["coeff"], want["pixel"]))
        quiet(lambda: ref.set_calculation_props(want["size"] if want["size"] >= 3 else 3, want["n_r"], want["n_phi"]))
        if want["size"] >= 3:
            B = calculate(ref, normalized=False, accelerated=False, suppress_warnings=True)
            ctx.ok(A.shape == B.shape and np.max(np.abs(A - B)) < 1e-13, "recalculation after reading gives the kernel of the saved object", got=A, want=B, how=how)
            ctx.event("recalculated after reading")


def outcome(fn):
    try:
        r, w = quiet(fn); return "done", len(w) > 0
    except Exception as e:  # noqa: B902 - compared with that of a fresh object
        return type(e).__name__, None


def like_fresh(ctx, dest, want, how):
    """After reading, the object takes and refuses the same settings as an object created for the saved polynomials, with the same outcome."""
    from zernpy import ZernPol, ZernPSF
    single = isinstance(want["orders"][0], int); terms = [want["orders"]] if single else list(want["orders"])
    pols = [ZernPol(m=m, n=n) for m, n in terms]; ref = ZernPSF(pols[0] if single else pols); k = len(terms)
    quiet(lambda: ref.set_physical_props(want["NA"], want["wavelength"], want["coeff"][0] if single else want["coeff"], want["pixel"]))
    quiet(lambda: ref.set_calculation_props(max(want["size"], 3), want["n_r"], want["n_phi"])); ref.kernel_size = want["size"]
    forms = [0.11, np.float64(0.07), 1, [0.12], (0.13,), np.array([0.14])] + [[0.1 + 0.01*i for i in range(j)] for j in dict.fromkeys((0, k - 1, k, k + 1, 2, 3)) if j >= 0]
    forms += [tuple(0.05*i for i in range(k)), np.linspace(-0.1, 0.1, k), [0.1]*(k - 1) + ["x"], None]
    for f in forms:
        a = outcome(lambda: dest.set_physical_props(0.5, 0.6, f, 0.1)); b = outcome(lambda: ref.set_physical_props(0.5, 0.6, f, 0.1))
        ctx.ok(a == b, "after reading the same settings are taken and refused as by an object created for the saved polynomials", form=repr(f), got=a, want=b, how=how)
        if a[0] == b[0] == "done":
            d = [x for x in difference(state(ref), state(dest)) if x != "kernel"]
            ctx.ok(not d, "after reading the settings have the same effect as for an object created for the saved polynomials", form=repr(f), differs=d, how=how)
    A = calculate(dest, normalized=True, accelerated=False, suppress_warnings=True) if outcome(lambda: (dest.set_physical_props(0.5, 0.6, 0.1 if single else [0.1]*k, 0.1), dest.set_calculation_props(3, 20, 36)))[0] == "done" else None
    quiet(lambda: (ref.set_physical_props(0.5, 0.6, 0.1 if single else [0.1]*k, 0.1), ref.set_calculation_props(3, 20, 36))); B = calculate(ref, normalized=True, accelerated=False, suppress_warnings=True)
    ctx.ok(A is not None and A.shape == B.shape and np.max(np.abs(A - B)) < 1e-13, "a new calculation after reading gives the kernel of a fresh object", how=how)
    import matplotlib; matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    titles = []
    for x in (dest, ref):
        plt.close("all"); quiet(lambda: x.plot_kernel("id")); titles.append([plt.figure(n).get_label() for n in plt.get_fignums()]); plt.close("all")
    ctx.ok(titles[0] == titles[1], "after reading the plot has the title of the saved polynomials", got=titles[0], want=titles[1], how=how)
    ctx.event("objects used further after reading")


def history_of(ctx, item):
    label, histories, length = item
    folder = tempfile.mkdtemp(prefix="zmon-c15-"); cwd = os.getcwd()
    try:
        os.chdir(folder)
        for h in range(histories):
            one_history(ctx, ctx.rng("history", label, h), folder, (label, h), length)
    finally:
        os.chdir(cwd); shutil.rmtree(folder)


def one_history(ctx, rng, folder, key, length):
    sub = Path(tempfile.mkdtemp(dir=folder, suffix=str(rng.choice(["", " with space", "per%20cent", "hash#tag", "\u00fcn\u00ef", "dot.json", "q'uote"])))); files = {}; objs = []
    forms = [lambda p: str(p), lambda p: p, lambda p: os.path.relpath(p), lambda p: Path(os.path.relpath(p)), lambda p: str(p)]
    for i in range(3):
        psf, terms = random_psf(rng)
        if i == 2 and rng.random() < 0.5:  # the same polynomials as the first object, for the same file name
            psf, terms = random_psf(rng, terms=objs[0][1])
        coeffs = setup(rng, psf, terms, objs[0][2] if i == 2 and objs[0][1] == terms else None); compute(rng, psf)
        objs.append([psf, terms, coeffs])
    for step in range(length):
        i = int(rng.integers(3)); psf, terms, coeffs = objs[i]
        action = str(rng.choice(["save", "save", "save over", "read", "read", "read", "change", "change", "crop", "missing", "own"]))
        ctx.case(key + (step,), nontrivial=step > 0, action=action, object=i, terms=terms)
        with ctx.guard("saving and reading work"):
            if action.startswith("save"):
                over = action == "save over"; listing = {p: p.read_bytes() for p in sub.iterdir()}
                st = state(psf)
                _, w = quiet(lambda: psf.save_json(forms[int(rng.integers(5))](sub), **(dict(overwrite=over) if over or rng.random() < 0.5 else {})))
                path = Path(os.path.abspath(psf.json_file_path))
                ctx.ok(path.is_file() and path.parent.resolve() == sub.resolve(), "the file is saved in the given folder", path=path)
                ctx.ok(not difference(st, state(psf)), "saving doesn't change the object")
                now = {p: p.read_bytes() for p in sub.iterdir()}
                ctx.ok(all(now.get(p) == c for p, c in listing.items() if p != path), "saving doesn't change other files")
                ctx.ok(set(now) - set(listing) <= {path}, "saving creates only the one file", files=[str(p) for p in set(now) - set(listing)])
                if path in listing and not over:
                    ctx.ok(now[path] == listing[path], "an existing file is changed only with overwrite=True"); ctx.event("existing file kept")
                else:
                    files[path] = st; check_file(ctx, path, st); ctx.event("overwritten" if path in listing else "new file")
            elif action in ("read", "own") and files:
                if action == "own" and os.path.abspath(psf.json_file_path) in {str(p) for p in files}:
                    path = Path(os.path.abspath(psf.json_file_path)); _, w = quiet(lambda: psf.read_json()); dest = psf
                else:
                    path = list(files)[int(rng.integers(len(files)))]; dest = psf if rng.random() < 0.5 else target(rng)
                    _, w = quiet(lambda: dest.read_json(forms[int(rng.integers(5))](path)))
                restored(ctx, rng, dest, files[path], action, recompute=False)
                if dest is psf:
                    t = files[path]["orders"]; objs[i][1] = [t] if isinstance(t[0], int) else list(t); objs[i][2] = files[path]["coeff"]
                    other, _ = random_psf(rng); quiet(lambda: other.read_json(path))
                    restored(ctx, rng, other, files[path], "second object")
                else:
                    restored(ctx, rng, dest, files[path], "after recalculation check")
                ctx.event("files read")
            elif action == "change":
                same = rng.random() < 0.5  # the same coefficients keep the file name
                objs[i][2] = setup(rng, psf, terms, coeffs if same else None); compute(rng, psf)
            elif action == "crop":
                psf.crop_kernel(float(rng.uniform(0.05, 0.45)))
            elif action == "missing":
                before = state(psf); name = [str(sub/"no.json"), sub/"none"/"no.json", str(sub), sub][int(rng.integers(4))]
                _, w = quiet(lambda: psf.read_json(name))
                ctx.ok(len(w) > 0, "reading a missing path warns", path=name)
                ctx.ok(not difference(before, state(psf)), "reading a missing path leaves the object unchanged", path=name, differs=difference(before, state(psf)))
                ctx.event("missing paths")


def histories(ctx):
    ctx.pmap(history_of, [(i, ctx.scale(9, 120), ctx.scale(24, 40)) for i in range(8)])


def pairs_of(ctx, item):
    """Every kind of saved object into every kind of target."""
    label, count = item
    rng = ctx.rng("pairs", label)
    kinds = {"single": [(-1, 3)], "piston": [(0, 0)], "list of one": [(2, 4)], "set": [(2, 2), (-3, 5)], "set with piston": [(0, 0), (1, 1), (0, 4)]}

    def build(kind, stage):
        from zernpy import ZernPol, ZernPSF
        pols = [ZernPol(m=m, n=n) for m, n in kinds[kind]]
        psf = ZernPSF(pols[0] if kind in ("single", "piston") else pols)
        if stage:
            setup(rng, psf, kinds[kind])
        if stage > 1:
            compute(rng, psf)
        return psf
    folder = tempfile.mkdtemp(prefix="zmon-c15-")
    try:
        for rep in range(count):
            for a in kinds:
                src = build(a, 2); sub = Path(tempfile.mkdtemp(dir=folder)); quiet(lambda: src.save_json(sub)); want = state(src)
                for b in kinds:
                    for stage in (0, 1, 2):
                        ctx.case((label, rep, a, b, stage), saved=a, target=b, stage=stage)
                        with ctx.guard("saving and reading work"):
                            dest = build(b, stage); quiet(lambda: dest.read_json(src.json_file_path))
                            restored(ctx, rng, dest, want, (a, b, stage))
                            ctx.event("saved/target pairs")
                            # the read object is a full one: it can be saved and read again
                            sub2 = tempfile.mkdtemp(dir=folder); quiet(lambda: dest.save_json(sub2)); last = build(b, 0)
                            now = state(dest)
                            quiet(lambda: last.read_json(dest.json_file_path)); restored(ctx, rng, last, now, "second generation", recompute=False)
                            quiet(lambda: dest.set_physical_props(0.5, 0.6, [0.1]*len(kinds[a]) if len(kinds[a]) > 1 else 0.1, 0.1))
                            like_fresh(ctx, dest, want, (a, b, stage)); like_fresh(ctx, last, now, "second generation")
    finally:
        shutil.rmtree(folder)


def pairs(ctx):
    ctx.pmap(pairs_of, [(i, ctx.scale(1, 12)) for i in range(8)])


def failing_of(ctx, item):
    label, count = item
    rng = ctx.rng("failing", label)
    folder = tempfile.mkdtemp(prefix="zmon-c15-")
    try:
        for k in range(count):
            sub = Path(tempfile.mkdtemp(dir=folder)); psf, terms = random_psf(rng); setup(rng, psf, terms); compute(rng, psf)
            existing = bool(k % 3)
            if existing:
                quiet(lambda: psf.save_json(sub))
            before = {p.name: p.read_bytes() for p in sub.iterdir()}
            kind = ["serialization", "writing"][k % 2]
            ctx.case((label, k, kind, existing), kind=kind, existing=existing, terms=terms)
            with ctx.guard("saving and reading work"):
                if kind == "serialization":
                    bad = [("NA", object()), ("wavelength", 0.5j), ("n_int_r_points", {1}), ("kernel_size", {None: 1}.keys()), ("pixel_size", psf)][int(rng.integers(5))]
                    setattr(psf, *bad)
                    try:
                        quiet(lambda: psf.save_json(sub, overwrite=True)); failed = False
                    except Exception:  # noqa: B902
                        failed = True
                else:
                    psf.kernel = np.asarray(psf.kernel)*0.5
                    failed = fork_call(limited_save, psf, str(sub), int(rng.choice([0, 1, 40, 200])))
                after = {p.name: p.read_bytes() for p in sub.iterdir()}
                ctx.event(f"{kind}: " + ("failed" if failed else "succeeded"))
                if failed:
                    ctx.ok(all(after.get(n) == c for n, c in before.items()), "a failed save leaves the existing file as it was", kind=kind,
                           sizes={n: (len(c), len(after.get(n, b""))) for n, c in before.items()})
                    for n in set(after) - set(before):
                        if n.endswith(".json"):
                            ctx.ok(parses(after[n]), "a failed save leaves no damaged file", name=n, size=len(after[n]))
                    if existing:
                        fresh, _ = random_psf(rng); name = sorted(before)[0]
                        quiet(lambda: fresh.read_json(sub/name)); ctx.ok(fresh.kernel.shape == (fresh.kernel_size,)*2, "the file can be read after a failed save")
    finally:
        shutil.rmtree(folder)


def parses(b):
    try:
        return isinstance(json.loads(b), dict)
    except ValueError:
        return False


def limited_save(psf, folder, limit):
    """In a child process: no file may grow above the limit."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    warnings.simplefilter("ignore")
    try:
        psf.save_json(folder, overwrite=True)
    except BaseException:  # noqa: B902
        return True
    return False


def failing(ctx):
    ctx.pmap(failing_of, [(i, ctx.scale(12, 80)) for i in range(8)])


def default_folder(ctx):
    """abs_path=None: the folder of the package; removed afterwards."""
    from ..core import SRC
    rng = ctx.rng("default"); folder = SRC/"zernpy"/"saved_psfs"; cwd = os.getcwd(); scratch = tempfile.mkdtemp(prefix="zmon-c15-")
    made = not folder.exists()
    try:
        os.chdir(scratch)
        for k in range(2):
            ctx.case(("default", k)); psf, terms = random_psf(rng, terms=[(1, 7)] if k else [(1, 5), (-5, 5)])
            setup(rng, psf, terms, [0.0123456789 + k*1e-9 + float(rng.random())*1e-3]*len(terms)); compute(rng, psf); before = set(folder.iterdir()) if folder.exists() else set()
            path = None
            try:
                with ctx.guard("saving and reading work"):
                    quiet(lambda: psf.save_json()); path = Path(psf.json_file_path); want = state(psf)
                    ctx.ok(path.is_file(), "the file is saved", path=path)
                    if folder.exists():
                        ctx.ok(path.parent.resolve() == folder.resolve(), "without path the file is saved in the folder 'saved_psfs' of the package", path=path)
                    other = target(rng); quiet(lambda: other.read_json(str(path))); restored(ctx, rng, other, want, "default folder")
                    quiet(lambda: psf.read_json()); restored(ctx, rng, psf, want, "own path")
            finally:
                for p in (set(folder.iterdir()) if folder.exists() else set()) - before:
                    p.unlink()
    finally:
        os.chdir(cwd); shutil.rmtree(scratch)
        if made and folder.exists() and not any(folder.iterdir()):
            folder.rmdir()


def extremes(ctx):
    """Kernels and numbers which are hard to write exactly."""
    rng = ctx.rng("extremes"); folder = tempfile.mkdtemp(prefix="zmon-c15-")
    try:
        for k in range(ctx.scale(40, 300)):
            psf, terms = random_psf(rng); setup(rng, psf, terms)
            size = int(rng.choice([1, 3, 7, 31, 75 if k % 3 else 151])); K = rng.random((size, size))**int(rng.choice([1, 30, 200]))
            K.ravel()[rng.integers(0, K.size, 3)] = [5e-324, 0.1, 1/3]
            psf.kernel = K; psf.kernel_size = size; sub = tempfile.mkdtemp(dir=folder); ctx.case(k, size=size)
            with ctx.guard("saving and reading work"):
                quiet(lambda: psf.save_json(sub)); want = state(psf); dest = target(rng); quiet(lambda: dest.read_json(psf.json_file_path))
                restored(ctx, rng, dest, want, "extreme kernel", recompute=False)
                ctx.ok(np.array_equal(dest.kernel, K), "reading restores the kernel exactly")
    finally:
        shutil.rmtree(folder)


def many(ctx):
    """Sets of many polynomials, and files of different states in one folder."""
    from zernpy import ZernPol, ZernPSF
    rng = ctx.rng("many"); folder = tempfile.mkdtemp(prefix="zmon-c15-"); table = o.osa_table(13)
    try:
        for k in range(ctx.scale(25, 200)):
            count = int(rng.choice([2, 6, 12, 15, 16, 18, 20, 25, 33, 45, 66, 80])); terms = [table[i] for i in rng.choice(len(table), count, replace=False)]
            digits = int(rng.choice([1, 3, 16])); sub = Path(tempfile.mkdtemp(dir=folder)); ctx.case(("many", k), count=count)
            psf = ZernPSF([ZernPol(m=m, n=n) for m, n in terms]); coeffs = [round(float(x), digits) for x in rng.uniform(-0.1, 0.1, count)]
            with ctx.guard("saving and reading work"):
                quiet(lambda: psf.set_physical_props(0.4, 0.6, coeffs, 0.2)); psf.kernel = rng.random((5, 5)); psf.kernel_size = 5
                quiet(lambda: psf.save_json(sub)); want = state(psf); dest = target(rng); quiet(lambda: dest.read_json(psf.json_file_path))
                restored(ctx, rng, dest, want, "many polynomials", recompute=False); ctx.event("sets of more than 15 polynomials", int(count > 15))
                first = Path(psf.json_file_path); content = first.read_bytes()
                i = int(rng.integers(count)); other = list(coeffs); other[i] += 1e-4*float(rng.choice([-1, 1])); other[i] = other[i] if abs(other[i]) > 1e-6 else 0.03  # one amplitude differs
                quiet(lambda: psf.set_physical_props(0.4, 0.6, other, 0.2)); psf.kernel = rng.random((5, 5)); psf.kernel_size = 5; quiet(lambda: psf.save_json(sub))
                ctx.ok(Path(psf.json_file_path) != first and first.read_bytes() == content, "states with different amplitudes don't share a file", count=count, changed=(i, coeffs[i], other[i]))
                want = state(psf); dest = target(rng); quiet(lambda: dest.read_json(psf.json_file_path)); restored(ctx, rng, dest, want, "many polynomials", recompute=False)
        sub = Path(tempfile.mkdtemp(dir=folder)); seen = {}
        for k in range(ctx.scale(60, 400)):  # single polynomials: amplitudes differing anywhere
            base = float(rng.choice([0.1, -0.1, 0.25, 1e-5, 1.5, 1/3])); a = base*(1 + float(rng.choice([0, 1e-2, 1e-4, 1e-6, 1e-9, 1e-12]))) ; m, n = table[int(rng.integers(12))]
            psf = ZernPSF(ZernPol(m=m, n=n)); ctx.case(("names", k), nontrivial=len(seen) > 0, m=m, n=n, a=a)
            with ctx.guard("saving and reading work"):
                quiet(lambda: psf.set_physical_props(0.4, 0.6, a, 0.2)); psf.kernel = rng.random((3, 3)); psf.kernel_size = 3; quiet(lambda: psf.save_json(sub))
                path = psf.json_file_path
                ctx.ok(seen.setdefault(path, (m, n, a)) == (m, n, a), "states with different polynomials or amplitudes don't share a file", m=m, n=n, a=a, other=seen[path])
                seen[path] = (m, n, a)
    finally:
        shutil.rmtree(folder)


def listed(ctx):
    """Complete files with the keys in any order, additional keys, whole numbers, or the single polynomial written as a set of one."""
    rng = ctx.rng("listed"); folder = tempfile.mkdtemp(prefix="zmon-c15-")
    try:
        for k in range(ctx.scale(60, 600)):
            src, terms = random_psf(rng); setup(rng, src, terms); compute(rng, src); dest = target(rng)
            with ctx.guard("saving and reading work"):
                quiet(lambda: src.save_json(folder, overwrite=True)); data = json.loads(Path(src.json_file_path).read_text()); path = Path(folder)/f"file{k}.json"; want = state(src)
                kinds = [x for x in ("one listed", "shuffled", "additional") if rng.random() < 0.6]
                if "one listed" in kinds and len(terms) == 1:
                    data["Polynomials"] = [data.pop("Polynomial")]; data["Amplitudes"] = [data.pop("Expansion Coefficient")]
                if "additional" in kinds:
                    data["Comment"] = "made by hand"; data["Version"] = [1, 2]
                if "shuffled" in kinds:
                    data = {x: data[x] for x in rng.permutation(list(data)).tolist()}
                path.write_text(json.dumps(data, indent=int(rng.integers(0, 3)) or None)); ctx.case(("listed", k), nontrivial=bool(kinds), kinds=kinds, terms=terms)
                quiet(lambda: dest.read_json(path if rng.random() < 0.5 else str(path)))
                got = state(dest); diff = difference(want, got)
                ctx.event("files with another layout"); ctx.ok(not diff, "a complete file is read whatever the order of its keys and the form of the polynomial", kinds=kinds, terms=terms, difference=diff)
                ctx.ok(np.array_equal(compute_same(dest), compute_same(src)), "kernels calculated after the reading are the same", kinds=kinds, terms=terms)
    finally:
        shutil.rmtree(folder)


def compute_same(psf):
    return calculate(psf, normalized=False, accelerated=False, suppress_warnings=True).copy()


def unusable(ctx):
    """Files which are no complete PSF files: the object keeps its state."""
    rng = ctx.rng("unusable"); folder = tempfile.mkdtemp(prefix="zmon-c15-")
    try:
        for k in range(ctx.scale(150, 1500)):
            src, terms = random_psf(rng); setup(rng, src, terms); compute(rng, src); dest = target(rng)
            with ctx.guard("saving and reading work"):
                quiet(lambda: src.save_json(folder, overwrite=True)); text = Path(src.json_file_path).read_text(); data = json.loads(text); path = Path(folder)/f"file{k}.json"
                needed = [x for x in data if x not in ("Polynomial", "Polynomials")]
                kind = ["keys missing", "cut", "values refused", "other json", "keys missing", "polynomials refused"][k % 6]
                if kind == "keys missing":
                    for x in rng.choice(needed, int(rng.integers(1, 4)), replace=False):
                        del data[str(x)]
                    content = json.dumps({x: data[x] for x in rng.permutation(list(data)).tolist()})
                elif kind == "cut":
                    content = text[:int(rng.integers(0, len(text)))]
                elif kind == "values refused":
                    key, bad = [("NA", [0.0, -0.5, 1.8, "a"]), ("Wavelength", [0.0, -1.0]), ("Pixel Size", [0.0, -0.1, 1e3])][int(rng.integers(3))]
                    data[key] = bad[int(rng.integers(len(bad)))]; content = json.dumps(data)
                elif kind == "polynomials refused":
                    data["Polynomial" if "Polynomial" in data else "Polynomials"] = -3 if "Polynomial" in data else [1, 2, -1]; content = json.dumps(data)
                else:
                    content = ["{}", "[1, 2]", '"text"', "3", json.dumps({"NA": 0.3, "Kernel Size": 9, "PSF Kernel": [[1.0, 2.0]]})][int(rng.integers(5))]
                path.write_text(content); before = state(dest); own = dest.json_file_path; ctx.case(("unusable", k), kind=kind, terms=terms)
                how, warned = outcome(lambda: dest.read_json(path))
                ctx.ok(how != "done" or warned, "a file which is not a complete PSF file is refused or warned about", kind=kind, how=how, content=content[:200])
                ctx.ok(not difference(before, state(dest)) and dest.json_file_path == own, "a file which is not a complete PSF file leaves the object unchanged", kind=kind, how=how,
                       differs=difference(before, state(dest)), content=content[-200:])
                ctx.event(f"unusable files: {kind}, {how}")
                quiet(lambda: dest.read_json(src.json_file_path)); restored(ctx, rng, dest, state(src), "after an unusable file", recompute=False)
                path.unlink()
    finally:
        shutil.rmtree(folder)


def relative_run(seed, base):
    """Saving into relative folders, the current folder is another one when the file is read: in a process of its own."""
    rng = np.random.default_rng(seed); found = []; base = Path(base)
    def expect(cond, what, **d):
        found.append((bool(cond), what, {k: str(v) for k, v in d.items()}))
    os.chdir(base); names = ["a", "./b", "c/d"]; steps = []
    for nm in names:
        (base/nm).mkdir(parents=True, exist_ok=True)
    psf, terms = random_psf(rng); setup(rng, psf, terms); compute(rng, psf)
    for step in range(int(rng.integers(2, 5))):
        nm = names[int(rng.integers(3))]; given = Path(nm) if rng.random() < 0.5 else nm; over = bool(rng.integers(2)); steps.append((nm, over)); os.chdir(base)
        quiet(lambda: psf.save_json(given, overwrite=over)); path = Path(psf.json_file_path); want = state(psf)
        expect(path.is_file() and path.resolve().parent == (base/nm).resolve(), "the file is saved in the relative folder", path=path, folder=nm, steps=steps)
        os.chdir("/" if rng.random() < 0.5 else base/"c")
        expect(Path(psf.json_file_path).is_file(), "the kept path doesn't depend on the current folder", path=psf.json_file_path, steps=steps)
        other = target(rng); _, w = quiet(lambda: other.read_json(psf.json_file_path)); diff = difference(want, state(other))
        expect(not diff, "reading restores the saved state", differs=diff, steps=steps)
        kept = psf.json_file_path; psf.kernel = np.ones((3, 3)); quiet(lambda: psf.read_json()); diff = difference(want, state(psf))
        expect(not diff and psf.json_file_path == kept, "reading without a path restores the own saved state", differs=diff, steps=steps)
    return found, steps


def relative(ctx):
    rng = ctx.rng("relative")
    for k in range(ctx.scale(10, 60)):
        folder = tempfile.mkdtemp(prefix="zmon-c15-")
        try:
            ctx.case(("relative", k))
            with ctx.guard("saving and reading work"):
                found, steps = fork_call(relative_run, int(rng.integers(2**31)), folder); ctx.event("saves into relative folders", len(steps))
                for good, what, d in found:
                    ctx.ok(good, what, **d)
        finally:
            shutil.rmtree(folder)


def defaults(ctx):
    """Objects without physical properties set: the default ones are saved and restored."""
    rng = ctx.rng("defaults")
    for k in range(ctx.scale(12, 60)):
        folder = tempfile.mkdtemp(prefix="zmon-c15-")
        try:
            psf, terms = random_psf(rng, terms=None if k % 2 else [o.osa_table(5)[i] for i in rng.choice(20, int(rng.integers(2, 4)), replace=False)])
            ctx.case(("defaults", k, str(terms)), terms=terms)
            with ctx.guard("saving and reading work"):
                size = int(rng.choice([3, 5])); quiet(lambda: psf.set_calculation_props(size, 20, 36)); compute(rng, psf); quiet(lambda: psf.save_json(folder)); want = state(psf)
                ctx.ok(Path(psf.json_file_path).parent == Path(folder), "the file is saved in the specified folder"); check_file(ctx, psf.json_file_path, want)
                other = target(rng); quiet(lambda: other.read_json(psf.json_file_path)); restored(ctx, rng, other, want, "default properties"); ctx.event("objects with default properties saved", 1)
        finally:
            shutil.rmtree(folder)


SECTIONS = [("other layouts", listed), ("pairs", pairs), ("histories", histories), ("failing saves", failing), ("default folder", default_folder), ("extremes", extremes), ("many", many), ("unusable files", unusable), ("relative folders", relative), ("default properties", defaults)]
