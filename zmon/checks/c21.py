"""C21: isolation of PSF objects and repeatability of their calculations: histories, threads, fresh processes."""
import contextlib
import gc
import io
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import warnings
import numpy as np
from .. import oracle as o
from ..core import VERIF, SRC
from ..forked import fork_call
from .c11 import physical, amplitudes, calculate
from .c12 import new, compile_now
from .c14 import snapshot, quiet

LEVEL = "exploration"
RULE = ("A case is one operation of a history on one of several PSF objects (all others being observed), one set of threads calculating at the same time, or one fresh "
        "process; non-trivial if other objects existed or other calculations happened before; distinct by history and step.")
ASSUMPTIONS = ["Equal settings must give kernels equal to 1e-12 of the maximum; accelerated and plain ones are compared separately (C12 relates them).",
               "Thread schedules are forced by a tiny switch interval and random yields at lines of zernpy."]
TOL = 1e-12


def fresh_marks():
    """What a newly created object looks like, and the class attributes of the classes."""
    from zernpy import ZernPol, ZernPSF
    a = snapshot(ZernPSF(ZernPol(osa=8))); b = snapshot(ZernPSF([ZernPol(osa=4), ZernPol(osa=12)])); c = snapshot(ZernPSF(ZernPol(osa=0)))
    cls = {}
    for cl in (ZernPSF, ZernPol):
        for k, v in vars(cl).items():
            if callable(v) or isinstance(v, (staticmethod, classmethod, property)) or k.startswith("_") or type(v).__name__.startswith("_abc"):
                continue
            cls[cl.__name__ + "." + k] = v.tobytes() if isinstance(v, np.ndarray) else repr(v) if isinstance(v, (int, float, str, tuple, list, dict, bool, type(None))) else str(v)
    return a, b, c, cls


def globals_of():
    st = np.random.get_state()
    return dict(filters=[repr(f) for f in warnings.filters], errors=np.geterr(), random=(st[1].tobytes(), st[2]), python_random=hash(random.getstate()), cwd=os.getcwd(),
                printing=repr(sorted(np.get_printoptions().items())), environ=hash(tuple(sorted(os.environ.items()))))


def polynomial_mark(z):
    return str(z), z.get_indices(), float(z.polynomial_value(0.3, 1.0)), z.get_polynomial_name(True)


class Obj:
    """A PSF with the record of what has to come out of its next calculation."""

    def __init__(self, rng, shared):
        from zernpy import ZernPSF
        table = o.osa_table(6); count = int(rng.choice([1, 1, 1, 2, 3])); idx = rng.choice(len(table), count, replace=False); self.terms = [table[int(i)] for i in idx]
        if count == 1 and rng.random() < 0.2:
            self.terms = [(0, 0)]
        self.pols = [shared[t] for t in self.terms] if rng.random() < 0.5 else [type(next(iter(shared.values())))(m=m, n=n) for m, n in self.terms]
        self.single = count == 1; self.container = self.pols[0] if self.single and rng.random() < 0.6 else list(self.pols)
        self.psf = ZernPSF(self.container); self.set = None; self.workers = False; self.coeffs = None; self.calculated = False; self.held = []  # kernels returned before


def settings(rng, obj):
    NA, wl, px = physical(rng); a = amplitudes(rng, obj.terms)
    return dict(NA=NA, wl=wl, px=px, coeffs=[float(x*wl) for x in a], size=int(rng.choice([3, 3, 5])), n_r=int(rng.choice([20, 21, 27])), n_phi=int(rng.choice([36, 37, 44])))


def apply(rng, obj, s):
    c = s["coeffs"][0] if obj.single else [list(s["coeffs"]), tuple(s["coeffs"]), np.array(s["coeffs"])][int(rng.integers(3))]
    quiet(lambda: obj.psf.set_physical_props(s["NA"], s["wl"], c, s["px"])); quiet(lambda: obj.psf.set_calculation_props(s["size"], s["n_r"], s["n_phi"]))
    obj.set = s; obj.coeffs = c


def spec_of(obj, accelerated, normalized):
    return dict(terms=obj.terms, single=obj.single, accelerated=accelerated, normalized=normalized, **obj.set)


def calculate_spec(s, **kw):
    """The kernel of a specification by a new object (in a process without history)."""
    from zernpy import ZernPol
    pols = [ZernPol(m=m, n=n) for m, n in s["terms"]]
    psf = new(pols[0] if s["single"] else pols, s["coeffs"][0] if s["single"] else s["coeffs"], s["NA"], s["wl"], s["px"], s["size"], s["n_r"], s["n_phi"])
    return np.array(calculate(psf, normalized=s["normalized"], accelerated=s["accelerated"], **kw))


def reference_of(ctx, spec):
    return fork_call(calculate_spec, spec)


def supported(terms):
    return all(n <= 10 for m, n in terms)


# ---------------------------------------------------------------- operations
def operation(ctx, rng, objs, obj, folder, shared, records, key):
    """Perform one operation; returns its name. Only obj may change."""
    from zernpy import ZernPSF, force_get_psf_compilation
    p = obj.psf
    name = str(rng.choice(["set", "set", "set bad", "calculate", "calculate", "calculate", "calculate", "crop", "convolute", "save", "read", "read bad", "workers", "points", "kernel in place",
                           "coefficients in place", "list in place", "plot", "replace kernel", "calculation bad", "compile", "getters", "parallel kernel", "parallel kernel"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == "set" or (obj.set is None and name in ("calculate", "coefficients in place")):
            name = "set"; apply(rng, obj, settings(rng, obj))
        elif name == "set bad":
            s = settings(rng, obj); bad = int(rng.integers(0, 4)); c = s["coeffs"][0] if obj.single else s["coeffs"]
            args = [(-1.0, s["wl"], c, s["px"]), (s["NA"], 0.0, c, s["px"]), (s["NA"], s["wl"], c, -s["px"]), (s["NA"], s["wl"], [0.1]*(len(obj.terms) + 2) if not obj.single else c, 0.0)][bad]
            try:
                p.set_physical_props(*args)
            except (ValueError, TypeError):
                ctx.event("rejected calls")
        elif name == "calculation bad":
            try:
                p.set_calculation_props(5, 3, 36)
            except ValueError:
                ctx.event("rejected calls")
        elif name == "calculate":
            acc = bool(rng.random() < 0.6); norm = bool(rng.integers(2)); K = p.calculate_psf_kernel(bool(rng.integers(2)), norm, bool(rng.integers(2)), acc)
            records.append((spec_of(obj, acc, norm), np.array(K), key)); obj.calculated = True
            if rng.random() < 0.3:
                K2 = np.array(p.calculate_psf_kernel(suppress_warnings=bool(rng.integers(2)), normalized=norm, verbose_info=bool(rng.integers(2)), accelerated=acc))
                ctx.ok(K2.shape == K.shape and np.max(np.abs(K2 - records[-1][1])) <= TOL, "calculating twice gives the same kernel", spec=records[-1][0])
            obj.held = obj.held[-3:] + [(K, np.array(K))]
        elif name == "parallel kernel" and obj.single and obj.set is not None and not obj.workers and obj.set["size"] <= 5:
            p.set_calculation_props(obj.set["size"], obj.set["n_r"], obj.set["n_phi"]); norm = bool(rng.integers(2)); K = p.get_kernel_parallel(norm)
            obj.held = obj.held[-3:] + [(K, np.array(K))]
            if obj.terms != [(0, 0)]:  # calculated by the integration there
                records.append((spec_of(obj, False, norm), np.array(K), key))
        elif name == "crop":
            p.crop_kernel(float(rng.choice([0.01, 0.1, 0.4])))
            if obj.set is not None and p.kernel_size != obj.set["size"]:  # the size of the cropped kernel is also that of the next calculation
                obj.set = dict(obj.set, size=p.kernel_size); ctx.event("cropped kernels")
        elif name == "convolute":
            p.convolute_img((rng.random((9, 9))*200).astype(str(rng.choice(["uint8", "float64"]))), bool(rng.integers(2)))
        elif name == "save" and (obj.single or obj.set is not None):
            p.save_json(os.path.join(folder, f"f{int(rng.integers(0, 4))}.json"), overwrite=True)
        elif name == "read":
            files = [f for f in os.listdir(folder) if f.startswith("f")]
            if files:
                f = os.path.join(folder, str(rng.choice(sorted(files)))); data = json.load(open(f)); p.read_json(f)
                obj.terms = [p.zernpol.get_mn_orders()] if p.zernpol is not None else [z.get_mn_orders() for z in p.polynomials]; obj.single = p.zernpol is not None
                obj.pols = []; obj.set = None; obj.coeffs = None; obj.container = None  # settings unknown to the model: only observed again after "set"
        elif name == "read bad":
            f = os.path.join(folder, "bad.json"); open(f, "w").write("{\"NA\": ")
            try:
                p.read_json(f)
            except Exception:  # noqa: B902
                ctx.event("rejected calls")
        elif name == "workers" and obj.single and obj.set is not None and obj.terms != [(0, 0)] and rng.random() < 0.4:
            if obj.workers:
                p.deinitialize_workers(); obj.workers = False
            else:
                p.initialize_parallel_workers(); obj.workers = True
                p.get_psf_point_r_parallel(0.3, 0.4)
        elif name == "points" and obj.single and obj.set is not None and not obj.workers:
            p.get_psf_point_r_parallel(0.5, 0.1)
        elif name == "kernel in place":
            p.kernel *= 1.5; p.kernel[0, 0] = 7.0; obj.held = [(a, np.array(a)) for a, _ in obj.held]
        elif name == "coefficients in place" and isinstance(obj.coeffs, (list, np.ndarray)):
            obj.coeffs[0] = 123.0; obj.set = dict(obj.set)
        elif name == "list in place" and isinstance(obj.container, list):
            obj.container.reverse(); obj.container.append(obj.container[0])
        elif name == "plot":
            import matplotlib; matplotlib.use("Agg")
            import matplotlib.pyplot as plt
            p.plot_kernel("x"); plt.close("all")
        elif name == "replace kernel":
            p.kernel = rng.random((5, 5)); p.kernel_size = 5
            if obj.set is not None:
                obj.set = dict(obj.set, size=5)
        elif name == "compile" and rng.random() < 0.15:
            force_get_psf_compilation(bool(rng.integers(2)))
        elif name == "getters":
            str(p); repr(p)
    return name


def history_of(ctx, item):
    from zernpy import ZernPol
    label, count, length = item; records = []; folder = tempfile.mkdtemp(prefix="zmon-c21-")
    try:
        for h in range(count):
            rng = ctx.rng("history", label, h); shared = {x: ZernPol(m=x[0], n=x[1]) for x in o.osa_table(6)}; marks = fresh_marks()
            objs = [Obj(rng, shared) for _ in range(int(rng.integers(3, 6)))]
            for step in range(length):
                if rng.random() < 0.06:
                    k = int(rng.integers(len(objs)))
                    if objs[k].workers:
                        objs[k].psf.deinitialize_workers()
                    objs[k] = Obj(rng, shared); gc.collect()
                obj = objs[int(rng.integers(len(objs)))]; others = [x for x in objs if x is not obj]
                before = [snapshot(x.psf) for x in others]; pm = [polynomial_mark(z) for z in shared.values()] if step % 5 == 0 else None; glob = globals_of(); name = "?"
                ctx.case((label, h, step), object=obj.terms, step=step, history=h, label=label)
                with ctx.guard("operations work"):
                    name = operation(ctx, rng, objs, obj, folder, shared, records, (label, h, step)); ctx.event("operation: " + name)
                    after = [snapshot(x.psf) for x in others]
                    changed = [(others[i].terms, [k for k in a if a[k] != after[i][k]]) for i, a in enumerate(before) if a != after[i]]
                    ctx.ok(not changed, "other PSF objects are unaffected", operation=name, changed=changed)
                    ctx.ok(all(np.array_equal(a, b) for x in objs for a, b in x.held), "kernels returned before are unaffected", operation=name); ctx.event("kernels held", sum(len(x.held) for x in objs))
                    if obj.set is not None:  # own settings are kept by whatever was called except setting
                        q = obj.psf; s = obj.set
                        ctx.ok((q.NA, q.wavelength, q.pixel_size, q.n_int_r_points, q.n_int_phi_points) == (s["NA"], s["wl"], s["px"], s["n_r"], s["n_phi"]), "own settings stay the set ones", operation=name)
                    now = globals_of(); keep = [k for k in glob if glob[k] != now[k]]
                    ctx.ok(not keep, "global settings of the process are unaffected", operation=name, changed=keep, detail_=[str(now[k])[:200] for k in keep])
                    if pm:
                        ctx.ok(pm == [polynomial_mark(z) for z in shared.values()], "polynomials shared by the objects are unaffected", operation=name)
                    if step % 4 == 0 or name in ("kernel in place", "set", "workers", "read"):
                        m2 = fresh_marks()
                        bad = [i for i in range(3) if marks[i] != m2[i]]; cb = [k for k in set(marks[3]) | set(m2[3]) if marks[3].get(k) != m2[3].get(k)]
                        ctx.ok(not bad, "newly created objects are unaffected", operation=name, changed=[[k for k in marks[i] if marks[i][k] != m2[i][k]] for i in bad])
                        ctx.ok(not cb, "class attributes are unaffected", operation=name, changed=cb)
            for x in objs:
                if x.workers:
                    x.psf.deinitialize_workers()
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return records


def compare(ctx, records, rule, most=None):
    """Kernels found in histories against those of processes without history."""
    recs = records
    if most and len(recs) > most:
        g = ctx.rng("choice", rule); recs = [recs[int(i)] for i in g.choice(len(recs), most, replace=False)]
    refs = ctx.pmap(reference_of, [r[0] for r in recs])
    for (spec, K, key), ref in zip(recs, refs):
        ctx.case(("compared", key, str(spec)), **{k: v for k, v in spec.items()})
        same = K.shape == ref.shape and np.all(np.isfinite(K)) and np.max(np.abs(K - ref)) <= TOL
        ctx.ok(same, rule, spec=spec, where=key, got=K, want=ref)
    ctx.event("kernels compared with processes without history", len(recs))


def histories(ctx):
    compile_now()
    res = ctx.pmap(history_of, [(i, ctx.scale(3, 40), 40) for i in range(8)])
    compare(ctx, [r for x in res if x for r in x], "kernels do not depend on the history", ctx.scale(120, 3000))


# ---------------------------------------------------------------- settings differing in one respect
def relatives(s):
    """Specifications which differ from s in one respect each (also those keeping derived values, as amplitude / wavelength or NA*pixel/wavelength, the same)."""
    c = s["coeffs"]; out = [("same", {}), ("wavelength", dict(wl=s["wl"]*2)), ("wavelength, same relative amplitudes", dict(wl=s["wl"]*2, coeffs=[x*2 for x in c])),
                            ("wavelength and pixel", dict(wl=s["wl"]*2, px=s["px"]*2)),
                            ("wavelength, pixel, amplitudes", dict(wl=s["wl"]*2, px=s["px"]*2, coeffs=[x*2 for x in c])),
                            ("NA", dict(NA=s["NA"]*0.5)), ("NA, same NA*pixel", dict(NA=s["NA"]*0.5, px=s["px"]*2)), ("pixel", dict(px=s["px"]*0.5)),
                            ("amplitudes slightly", dict(coeffs=[x + 3e-7 for x in c])), ("last amplitude", dict(coeffs=c[:-1] + [c[-1]*0.9])),
                            ("signs", dict(coeffs=[-x for x in c])), ("normalization", dict(normalized=not s["normalized"])), ("size", dict(size=s["size"] + 2)),
                            ("radial points", dict(n_r=s["n_r"] + 1)), ("angular points", dict(n_phi=s["n_phi"] + 3)), ("acceleration", dict(accelerated=not s["accelerated"]))]
    if len(c) > 1:
        out += [("amplitudes exchanged", dict(coeffs=c[::-1])), ("polynomials exchanged", dict(terms=s["terms"][::-1])),
                ("both exchanged", dict(terms=s["terms"][::-1], coeffs=c[::-1])), ("one amplitude zero", dict(coeffs=[0.0] + c[1:]))]
    m, n = s["terms"][0]
    if m and (-m, n) not in s["terms"]:
        out.append(("partner", dict(terms=[(-m, n)] + list(s["terms"][1:]))))
    if s["single"]:
        out.append(("as a set", dict(single=False)))
    return [(name, {**s, **d}) for name, d in out]


def related_of(ctx, item):
    label, count = item; records = []
    for h in range(count):
        rng = ctx.rng("related", label, h); s = spec(rng, accelerated=bool(label % 2)); s["px"] *= 0.7  # below the limit for all relatives
        rel = relatives(s); order = [int(i) for i in rng.permutation(len(rel))]; order += [int(i) for i in rng.choice(len(rel), 6)]
        one = None
        for k, i in enumerate(order):
            name, t = rel[i]; ctx.case((label, h, k), changed=name)
            with ctx.guard("operations work"):
                if label % 3 == 0 and not name.startswith(("poly", "both", "part", "as a")):  # one object for all of them, one by one set and calculated
                    if one is None:
                        from zernpy import ZernPol, ZernPSF
                        pols = [ZernPol(m=a, n=b) for a, b in t["terms"]]; one = ZernPSF(pols[0] if t["single"] else pols)
                    quiet(lambda: one.set_physical_props(t["NA"], t["wl"], t["coeffs"][0] if t["single"] else t["coeffs"], t["px"]))
                    quiet(lambda: one.set_calculation_props(t["size"], t["n_r"], t["n_phi"])); K = np.array(calculate(one, normalized=t["normalized"], accelerated=t["accelerated"]))
                else:
                    K = calculate_spec(t)
                records.append((t, K, ("related", label, h, k, name))); ctx.event("settings changed: " + name)
    return records


def related(ctx):
    compile_now()
    res = ctx.pmap(related_of, [(i, ctx.scale(1, 12)) for i in range(8)])
    uniq = {}
    for rec in (r for x in res if x for r in x):
        k = str(rec[0])
        if k in uniq:
            ctx.case(("repeated", rec[2])); ctx.ok(rec[1].shape == uniq[k][1].shape and np.max(np.abs(rec[1] - uniq[k][1])) <= TOL, "calculating twice gives the same kernel", spec=rec[0], where=(rec[2], uniq[k][2]))
        else:
            uniq[k] = rec
    compare(ctx, list(uniq.values()), "kernels do not depend on calculations with other settings")


# ---------------------------------------------------------------- threads
def in_threads(args):
    """Several threads calculating at the same time with random yields inside zernpy; returns [(spec, kernel)], errors, switches."""
    seed, plans, shared_psf = args
    from zernpy import ZernPol
    g = random.Random(seed); out = []; errors = []; switches = [0]; last = [None]; root = str(SRC); pool = {}
    for plan in plans:
        for s in plan:
            for t in map(tuple, s["terms"]):
                pool.setdefault(t, ZernPol(m=t[0], n=t[1]))
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-5); barrier = threading.Barrier(len(plans))

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        me = threading.get_ident()
        if last[0] != me:
            switches[0] += 1; last[0] = me
        if event == "line" and g.random() < 0.02:
            time.sleep(0 if g.random() < 0.7 else 1e-4)
        return tracer

    def work(plan):
        try:
            sys.settrace(tracer); barrier.wait()
            keep = []
            for s in plan:
                pols = [pool[tuple(t)] for t in s["terms"]]
                psf = new(pols[0] if s["single"] else pols, s["coeffs"][0] if s["single"] else s["coeffs"], s["NA"], s["wl"], s["px"], s["size"], s["n_r"], s["n_phi"])
                K = psf.calculate_psf_kernel(suppress_warnings=True, normalized=s["normalized"], accelerated=s["accelerated"]); out.append((s, np.array(K), np.array(psf.kernel)))
                keep.append((psf, out[-1][1]))
            for psf, K in keep:
                if not np.array_equal(psf.kernel, K):
                    errors.append("stored kernel changed later")
        except BaseException as e:  # noqa: B902
            import traceback
            errors.append(traceback.format_exc()[-800:])
        finally:
            sys.settrace(None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ts = [threading.Thread(target=work, args=(p,)) for p in plans]
        for t in ts: t.start()
        for t in ts: t.join()
    sys.setswitchinterval(old)
    return out, errors, switches[0]


def spec(rng, accelerated=None, top=6, small=True):
    table = o.osa_table(top); count = int(rng.choice([1, 1, 2, 3])); terms = [table[int(i)] for i in rng.choice(len(table), count, replace=False)]; NA, wl, px = physical(rng)
    a = amplitudes(rng, terms)
    return dict(terms=terms, single=count == 1, accelerated=bool(rng.integers(2)) if accelerated is None else accelerated, normalized=bool(rng.integers(2)), NA=NA, wl=wl, px=px,
                coeffs=[float(x*wl) for x in a], size=3, n_r=20, n_phi=36)


def threads_of(ctx, item):
    label, count = item; records = []
    for k in range(count):
        rng = ctx.rng("threads", label, k); plans = [[spec(rng) for _ in range(int(rng.integers(1, 4)))] for _ in range(int(rng.integers(2, 6)))]
        if k % 3 == 0:  # all threads do the same polynomials with different settings
            for plan in plans:
                for s, t in zip(plan, plans[0]):
                    s["terms"], s["single"] = t["terms"], t["single"]; s["coeffs"] = [float(x) for x in rng.uniform(-0.3, 0.3, len(t["terms"]))]
        ctx.case((label, k, len(plans)), threads=len(plans), kernels=sum(map(len, plans)))
        out, errors, switches = fork_call(in_threads, (int(rng.integers(2**31)), plans, False))
        ctx.ok(not errors, "calculations in threads raise nothing", errors=errors[:2]); ctx.event("switches between threads inside zernpy", switches); ctx.event("thread groups")
        for s, K, own in out:
            ctx.ok(np.array_equal(K, own), "stored kernel = returned kernel"); records.append((s, K, ("thread", label, k)))
    return records


def threads(ctx):
    compile_now()
    res = ctx.pmap(threads_of, [(i, ctx.scale(2, 30)) for i in range(8)])
    compare(ctx, [r for x in res if x for r in x], "kernels do not depend on calculations in other threads", ctx.scale(100, 2500))


# ---------------------------------------------------------------- fresh interpreters
def variant_main(path):
    """Run in an interpreter of its own."""
    with open(path, "rb") as f:
        name, specs = pickle.load(f)
    if name == "numba blocked":
        sys.modules["numba"] = None
    sys.path.insert(0, str(SRC)); sink = io.StringIO()
    import zernpy
    out = []
    with contextlib.redirect_stdout(sink), warnings.catch_warnings():
        warnings.simplefilter("always" if name == "warnings" else "ignore")
        if name in ("precompiled", "precompiled verbose", "precompiled twice"):
            zernpy.force_get_psf_compilation(name.endswith("verbose"))
            if name.endswith("twice"):
                zernpy.force_get_psf_compilation()
        if name == "compiled in threads":
            res = [None]*len(specs)

            def one(i):
                res[i] = calculate_spec(specs[i])
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(specs))]
            for t in ts: t.start()
            for t in ts: t.join()
            out = res
        elif name == "reversed":
            out = [calculate_spec(s) for s in specs[::-1]][::-1]
        elif name == "failing before":
            z = zernpy.ZernPSF(zernpy.ZernPol(m=2, n=14))
            for k in range(2):
                try:
                    calculate(z, accelerated=True)
                except Exception:  # noqa: B902
                    pass
            out = [calculate_spec(s) for s in specs]
        elif name in ("verbose", "warnings"):
            out = [calculate_spec(s, verbose_info=True) for s in specs]
        else:
            out = [calculate_spec(s, suppress_warnings=name == "suppressed") for s in specs]
    with open(path + ".out", "wb") as f:
        pickle.dump(out, f)


VARIANTS = ["cold", "precompiled", "precompiled verbose", "compiled in threads", "reversed", "failing before", "verbose", "suppressed", "warnings", "numba blocked", "precompiled twice"]


def variant_of(ctx, item):
    name, specs = item
    folder = tempfile.mkdtemp(prefix="zmon-c21-"); path = os.path.join(folder, "in")
    try:
        with open(path, "wb") as f:
            pickle.dump((name, specs), f)
        env = {**os.environ, "PYTHONPATH": str(VERIF), "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.run([sys.executable, "-c", f"from zmon.checks.c21 import variant_main; variant_main({path!r})"], env=env, capture_output=True, text=True, timeout=400, cwd=folder)
        if p.returncode or not os.path.exists(path + ".out"):
            ctx.case(("process", name), how=name); ctx.ok(False, "calculations in a fresh process work", how=name, stderr=p.stderr[-800:]); return None
        with open(path + ".out", "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def processes(ctx):
    rng = ctx.rng("processes"); specs = [spec(rng, accelerated=True) for _ in range(5)] + [spec(rng, accelerated=False) for _ in range(3)]
    specs += [dict(specs[0], normalized=not specs[0]["normalized"]), dict(specs[1], size=5), dict(specs[5], accelerated=True)]
    names = VARIANTS if ctx.thorough else VARIANTS[:2] + VARIANTS[3:4] + ["numba blocked", VARIANTS[int(rng.integers(4, 7))], VARIANTS[int(rng.integers(7, 9))]]
    res = dict(zip(names, ctx.pmap(variant_of, [(n, specs) for n in names], workers=6)))
    base = res.get("cold")
    if base is None:
        return
    for name, out in res.items():
        for i, s in enumerate(specs):
            ctx.case(("process", name, i), how=name, **s)
            if out is None or not ctx.ok(out[i] is not None, "calculations in a fresh process work", how=name):
                continue
            tol = TOL
            if name == "numba blocked" and s["accelerated"]:
                if (0, 0) in s["terms"] and s["single"]:
                    continue  # closed form against integral: judged by C12
                tol = 1e-9
            ctx.ok(out[i].shape == base[i].shape and np.max(np.abs(out[i] - base[i])) <= tol, "kernels are the same in processes with other histories or configurations", how=name,
                   got=out[i], want=base[i], spec=s)
    ctx.event("fresh interpreters", len(res)); ctx.extra["variants"] = names


# ---------------------------------------------------------------- particular ones
def particular(ctx):
    """Isolation where objects are easily connected: containers, defaults, default kernel, files, workers."""
    from zernpy import ZernPol, ZernPSF
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        z1, z2, z3 = ZernPol(m=-2, n=2), ZernPol(m=1, n=3), ZernPol(m=0, n=4)
        ctx.case("one container"); pols = [z1, z2]; a, b = ZernPSF(pols), ZernPSF(pols); cs = np.array([0.1, 0.2])
        with ctx.guard("operations work"):
            a.set_physical_props(0.5, 0.6, cs, 0.1); a.set_calculation_props(3, 20, 36); sa = snapshot(a); b.set_physical_props(0.4, 0.5, cs, 0.11); sb = snapshot(b)
            ctx.ok(snapshot(a) == sa, "other PSF objects are unaffected", operation="same coefficients for two objects"); cs *= 5; pols.append(z3)
            ctx.ok(snapshot(a) == sa and snapshot(b) == sb, "objects keep their own copy of what was passed in")
            KA = np.array(calculate(a, accelerated=False, normalized=False)); b.coefficients[0] = 9.0; b.amplitudes[0] = 9.0
            ctx.ok(np.array_equal(KA, calculate(a, accelerated=False, normalized=False)), "kernels do not depend on the history", operation="coefficients of another object changed in place")
        ctx.case("default kernel")
        with ctx.guard("operations work"):
            a = ZernPSF(z1); b = ZernPSF(z2); a.kernel[0, 0] = 5.0; a.kernel *= 2
            ctx.ok(b.kernel[0, 0] == 1.0 and ZernPSF(z3).kernel[0, 0] == 1.0 and ZernPSF([z1, z2]).kernel[0, 0] == 1.0, "newly created objects are unaffected", operation="default kernel changed in place")
        ctx.case("copies")
        with ctx.guard("operations work"):
            import copy
            a = new(z2, 0.2, 0.5, 0.6, 0.1, 3, 20, 36); K = np.array(calculate(a, accelerated=False)); b = copy.deepcopy(a); quiet(lambda: b.set_physical_props(0.3, 0.5, 0.1, 0.12)); calculate(b, accelerated=False)
            ctx.ok(np.array_equal(a.kernel, K) and a.NA == 0.5, "other PSF objects are unaffected", operation="deep copy changed")
            ctx.ok(np.array_equal(calculate(a, accelerated=False), K), "calculating twice gives the same kernel")
        ctx.case("returned kernels are kept")
        with ctx.guard("operations work"):
            a = new(z2, 0.2, 0.5, 0.6, 0.1, 3, 20, 36); K = calculate(a, accelerated=False, normalized=False); C = K.copy(); quiet(lambda: a.set_physical_props(0.4, 0.5, -0.2, 0.12))
            K2 = calculate(a, accelerated=False); ctx.ok(np.array_equal(K, C) and not np.shares_memory(K, K2), "a kernel returned before is not changed by a later calculation")
            K3 = calculate(a, accelerated=True); C3 = K3.copy(); calculate(a, accelerated=True, normalized=False)
            ctx.ok(np.array_equal(K3, C3), "a kernel returned before is not changed by a later calculation", accelerated=True)
        ctx.case("one polynomial in many objects")
        with ctx.guard("operations work"):
            objs = [new(z2, 0.1*(i + 1), 0.5, 0.6, 0.1, 3, 20, 36) for i in range(4)]; refs = [np.array(calculate(x, accelerated=False)) for x in objs]
            for x in objs[::-1]:
                calculate(x, accelerated=False)
            ctx.ok(all(np.array_equal(x.kernel, r) for x, r in zip(objs, refs)), "kernels do not depend on the history", operation="one polynomial in many objects")
            ctx.ok(len({r.tobytes() for r in refs}) == 4, "objects with different settings have different kernels")


# ---------------------------------------------------------------- the process: all parts of the library
def process_marks():
    """Settings of the process and of the packages the library uses."""
    import decimal
    import locale
    import logging
    import signal
    import sys
    import threading
    import matplotlib
    import multiprocessing
    from concurrent.futures import process
    g = globals_of()
    g.update(plotting=repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items() if k not in ("backend", "interactive"))), backend=matplotlib.get_backend(), locale=locale.setlocale(locale.LC_ALL),
             recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), digits=sys.get_int_max_str_digits(), decimals=str(decimal.getcontext()), collecting=(gc.isenabled(), gc.get_threshold()),
             signals=[str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD)], logging=(len(logging.root.handlers), logging.root.level, logging.root.disabled, logging.root.manager.disable),
             hooks=(sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__, threading.excepthook is threading.__excepthook__), streams=(id(sys.stdout), id(sys.stderr)),
             trace=(sys.gettrace() is None, sys.getprofile() is None), start=multiprocessing.get_start_method(allow_none=True), umask=umask(), errcall=str(np.geterrcall()), buffer=np.getbufsize())
    return g


def differing(a, b):
    a, b = str(a), str(b); i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return a[max(0, i - 60):i + 60] + " -> " + b[max(0, i - 60):i + 60]


def umask():
    m = os.umask(0o22); os.umask(m); return m


def used_of(ctx, item):
    """Calls of all parts of the library; after each one the settings of the process are those before."""
    import io
    import sys
    from contextlib import redirect_stdout
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import zernpy
    from zernpy import ZernPol, ZernPSF
    label, count = item; folder = tempfile.mkdtemp(prefix="zmon-c21-")
    table = o.osa_table(14)
    try:
        for k in range(count):
            rng = ctx.rng("process", label, k)
            many = int(rng.choice([3, 20, 61, 66, 100])); idx = rng.choice(len(table), many, replace=False); pols = [ZernPol(m=table[i][0], n=table[i][1]) for i in idx]; cs = rng.uniform(-0.1, 0.1, many)
            r = rng.random(4*many); t = rng.uniform(0, 6.28, 4*many); img = rng.normal(size=(61, 64)); big = ZernPol(m=1, n=43); high = ZernPol(m=0, n=44); z = pols[0]
            few = pols[:4]; a1 = [0.05, 0.02, -0.03, 0.01][:len(few)]

            def psf():
                p = ZernPSF(ZernPol(m=1, n=3)); p.set_physical_props(0.6, 0.55, 0.04, 0.1); p.set_calculation_props(5, 20, 36); return p
            calls = [("fit vectors", lambda: zernpy.fit_polynomials_vectors(tuple(pols), ZernPol.sum_zernikes(cs, pols, r, t), r, t)), ("fit image", lambda: zernpy.fit_polynomials(img, tuple(pols[:30]))),
                     ("fit rejected", lambda: zernpy.fit_polynomials(img, tuple(pols[:1]) + (1,))), ("fit cropped", lambda: zernpy.fit_polynomials(img, tuple(few), crop_radius=0.8, return_cropped_image=True, strict_circle_border=True)),
                     ("sum", lambda: ZernPol.sum_zernikes(cs, pols, r, t)), ("surface", lambda: ZernPol.gen_zernikes_surface(cs, pols, 0.1, 0.1)), ("sum rejected", lambda: ZernPol.sum_zernikes(cs[1:], pols, r, t)),
                     ("values", lambda: [p.polynomial_value(r, t) for p in pols[:8]]), ("values of high orders", lambda: (high.polynomial_value(0.5, 0.5), big.radial_dr(0.5), high.radial(0.2, use_exact_eq=True))),
                     ("angles outside", lambda: z.polynomial_value(r, t + 20)), ("radii outside", lambda: z.polynomial_value(r + 1, t)), ("large values", lambda: z.polynomial_value(rng.random(300001), rng.random(300001))),
                     ("not numbers", lambda: z.polynomial_value(np.array([np.nan, 0.5]), np.array([0.1, np.inf]))), ("construct rejected", lambda: ZernPol(m=1, n=2)), ("generate", lambda: zernpy.generate_polynomials(12)),
                     ("image", lambda: zernpy.generate_phases_image(tuple(few), tuple(a1), 60, 50)), ("random image", lambda: zernpy.generate_random_phases(3, 40, 40)),
                     ("plot", lambda: ZernPol.plot_profile(z, projection=str(rng.choice(["2d", "3d"])))), ("plot of a sum", lambda: ZernPol.plot_sum_zernikes_on_fig(plt.figure(), cs[:3], pols[:3])), ("names", lambda: [str(p) + p.get_polynomial_name() for p in pols]),
                     ("psf", lambda: psf().calculate_psf_kernel(verbose_info=True, accelerated=False)), ("psf accelerated", lambda: psf().calculate_psf_kernel(accelerated=True)), ("psf parallel", lambda: psf().get_kernel_parallel()),
                     ("psf of a set", lambda: calculate(new(few, a1, 0.5, 0.6, 0.1, 3, 20, 36), accelerated=False)), ("psf saved", lambda: psf().save_json(folder)), ("psf kernel plot", lambda: psf().plot_kernel("x")),
                     ("psf convolution", lambda: psf().convolute_img(rng.random((30, 31)))), ("psf visualization", lambda: psf().visualize_convolution()), ("psf rejected", lambda: ZernPSF([z, z])), ("coarse pixels", lambda: ZernPSF(z).set_physical_props(1.2, 0.5, 0.1, 1.0)),
                     ("large amplitudes", lambda: ZernPSF(z).set_physical_props(1.2, 0.5, 3.1, 0.05)), ("many points", lambda: psf().set_calculation_props(5, 400, 500)), ("compile", lambda: zernpy.force_get_psf_compilation(True)),
                     ("crop", lambda: psf().crop_kernel(0.1)), ("workers", lambda: workers_used(psf()))]
            process_marks()  # first use of plotting and locale settings
            for i in rng.permutation(len(calls)):
                name, f = calls[int(i)]
                if name in ("psf parallel", "workers") and k % 3:
                    continue
                random_one = name.startswith("random"); outcome = "done"; before = process_marks(); shown = warnings.showwarning; text = io.StringIO()
                ctx.case((label, k, name), operation=name, polynomials=many)
                with redirect_stdout(text):
                    with warnings.catch_warnings(record=True):
                        inner = [repr(x) for x in warnings.filters]
                        try:
                            f()
                        except Exception as e:  # noqa: B902 - which calls are refused is judged by other checks
                            outcome = type(e).__name__
                        filters = inner == [repr(x) for x in warnings.filters]
                now = process_marks(); plt.close("all")
                changed = [q for q in before if before[q] != now[q] and not (random_one and q in ("random", "python_random"))]
                ctx.event("calls of the library between comparisons of the settings of the process"); ctx.event("outcome: " + ("done" if outcome == "done" else "refused"))
                ctx.ok(not changed and filters and warnings.showwarning is shown, "global settings of the process are unaffected", operation=name, outcome=outcome, changed=changed or "warning filters", detail_=[differing(before[q], now[q]) for q in changed])
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def workers_used(p):
    p.initialize_parallel_workers()
    try:
        return p.get_psf_point_r_parallel(0.3, 0.4)
    finally:
        p.deinitialize_workers()


IMPORT = """
import sys, json, warnings; sys.path[:0] = [%r, %r]
import numpy, matplotlib, scipy, multiprocessing, decimal, numba, random
matplotlib.use("Agg"); import matplotlib.pyplot
from zmon.checks.c21 import process_marks
process_marks(); random.seed(5); numpy.random.seed(5)
a = process_marks()
import zernpy
from zernpy import ZernPol, ZernPSF
b = process_marks()
print(json.dumps([k for k in a if a[k] != b[k]]))
"""


def generators(ctx):
    """The state of the random generators after a call still depends on the one before: nothing is seeded by the library."""
    import zernpy
    from zernpy import ZernPol
    rng = ctx.rng("generators"); z = ZernPol(m=1, n=3); img = rng.normal(size=(30, 30)); pols = zernpy.generate_polynomials(4); r, t = rng.random(99), rng.uniform(0, 6, 99)
    calls = [(f"random image {n} {w}x{h}", lambda n=n, w=w, h=h: zernpy.generate_random_phases(n, w, h)) for n, w, h in ((1, 9, 9), (2, 9, 12), (3, 30, 20), (4, 15, 15), (5, 40, 40), (6, 21, 9), (8, 12, 12))]
    calls += [("fit", lambda: zernpy.fit_polynomials(img, pols)), ("fit of vectors", lambda: zernpy.fit_polynomials_vectors(pols, r*2, r, t)), ("image", lambda: zernpy.generate_phases_image(pols[:3], (0.1, 0.2, 0.3), 20, 20)),
              ("psf", lambda: calculate(new(z, 0.1, 0.5, 0.6, 0.1, 3, 20, 36), accelerated=False)), ("values", lambda: z.polynomial_value(r, t))]
    for name, f in calls:
        seen = []
        for seed in (3, 4, 5):
            ctx.case((name, seed)); np.random.seed(seed); random.seed(seed); quiet(f); seen.append((np.random.get_state()[1].tobytes(), np.random.random(), random.getstate(), random.random()))
        ctx.ok(len({x[:2] for x in seen}) == 3 and len({x[2:] for x in seen}) == 3, "random generators of the process are not seeded", operation=name)
        if name.startswith("random"):
            first = []
            for seed in (3, 4, 5, 6, 7, 8):
                np.random.seed(seed); random.seed(seed); first.append(tuple(np.asarray(quiet(f)[1]).tolist()))
            ctx.ok(len(set(first)) > 1 or len(first[0]) < 10, "generated random amplitudes differ", operation=name, got=first[:2])


def process(ctx):
    import subprocess
    import sys
    from pathlib import Path
    from ..core import SRC
    ctx.pmap(used_of, [(i, ctx.scale(1, 12)) for i in range(8)])
    ctx.case("import")
    root = str(Path(__file__).resolve().parents[2])
    p = subprocess.run([sys.executable, "-c", IMPORT % (root, str(SRC))], capture_output=True, text=True, timeout=200, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    with ctx.guard("the library can be imported"):
        changed = json.loads(p.stdout.strip().splitlines()[-1])
        ctx.ok(not changed, "global settings of the process are unaffected", operation="import", changed=changed)


SECTIONS = [("particular", particular), ("fresh interpreters", processes), ("histories", histories), ("related settings", related), ("threads", threads), ("process", process), ("generators", generators)]
