"""C20: what the plots draw, read back from the artists of the figures."""
import warnings
import numpy as np
from .. import oracle as o
from .c08 import terms, oracle_sum, container
from .c11 import physical, amplitudes, calculate
from .c12 import new

LEVEL = "exploration"
RULE = ("A case is one call of a plotting method; non-trivial if the plotted values are not constant; distinct by method, polynomials, coordinates and flags.")
ASSUMPTIONS = ["Matplotlib with the Agg backend; what is drawn is read from the artists (QuadMesh, Poly3DCollection, AxesImage), some figures are also rendered.",
               "Matplotlib itself samples 3D surfaces of more than 50 lines; there the drawn vertices must be points of the surface.",
               "Default coordinates are those of gen_polar_coordinates() (2D) and gen_equal_polar_mesh() (3D), which C08 judges."]
MAPS = ["coolwarm", "jet", "turbo", "rainbow", "viridis", "plasma"]


def backend():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    warnings.simplefilter("ignore")
    return plt


def figure(rng, plt, kind=None):
    """Empty or already used figure, known to pyplot or not."""
    import matplotlib.figure as mf
    kind = int(rng.integers(0, 4)) if kind is None else kind
    fig = plt.figure() if kind % 2 else mf.Figure(figsize=(4, 4))
    if kind >= 2:
        ax = fig.subplots(1, 2); ax[0].plot([1, 2, 3]); im = ax[1].imshow(np.eye(3)); fig.colorbar(im, ax=ax[1]); fig.suptitle("old"); fig.text(0.1, 0.1, "old")
    return fig


def mesh_axes(fig):
    return [a for a in fig.axes if a.name in ("polar", "3d")]


def judge_2d(ctx, fig, Z, R, T, cmap, colorbar, **d):
    """Z drawn over R, T on polar axes of the figure."""
    axs = mesh_axes(fig)
    if not ctx.ok(len(axs) == 1 and axs[0].name == "polar", "one polar plot is on the figure", axes=[a.name for a in fig.axes], **d):
        return None
    ax = axs[0]; qm = [c for c in ax.collections if hasattr(c, "get_coordinates")]
    if not ctx.ok(len(qm) == 1, "one colour mesh is on the axes", found=[type(c).__name__ for c in ax.collections], **d):
        return None
    C = np.ma.filled(np.ma.asarray(qm[0].get_array(), float), np.nan).reshape(-1); xy = np.asarray(qm[0].get_coordinates()); want = np.asarray(Z, float)
    shape = (xy.shape[0] - 1, xy.shape[1] - 1)
    if not ctx.ok(C.size == want.size and shape == want.shape, "the mesh has one cell per coordinate pair", got=(C.size, shape), want=want.shape, **d):
        return None
    C = C.reshape(shape); err = np.abs(C - want); lim = 1e-12*(1 + np.abs(want).max())
    ctx.ok(np.all(err <= lim), "the drawn values are the values of the surface", error=float(np.nanmax(err)), at=np.unravel_index(np.nanargmax(np.nan_to_num(err, nan=np.inf)), err.shape), **d)
    tx, ry = xy[..., 0], xy[..., 1]; TT, RR = np.meshgrid(T, R)
    tmin = np.minimum(tx[:-1, :-1], tx[:-1, 1:]); tmax = np.maximum(tx[:-1, :-1], tx[:-1, 1:]); rmin = np.minimum(ry[:-1, :-1], ry[1:, :-1]); rmax = np.maximum(ry[:-1, :-1], ry[1:, :-1])
    e = 1e-9
    ctx.ok(np.all((tmin - e <= TT) & (TT <= tmax + e)) and np.all((rmin - e <= RR) & (RR <= rmax + e)), "each value is drawn at its coordinates",
           theta=(float(tx.min()), float(tx.max())), r=(float(ry.min()), float(ry.max())), **d)
    ctx.ok(ax.get_theta_direction() == 1 and abs(ax.get_theta_offset()) < 1e-12, "angles are counted counterclockwise from the x axis", **d)
    ctx.ok(ax.get_rmax() >= np.max(R) - 1e-9 and abs(abs(ax.get_xlim()[1] - ax.get_xlim()[0]) - 2*np.pi) < 1e-9, "the whole surface is visible", rmax=ax.get_rmax(), xlim=ax.get_xlim(), **d)
    ctx.ok(qm[0].get_cmap().name == cmap, "the requested colour map is used", got=qm[0].get_cmap().name, want=cmap, **d)
    lo, hi = qm[0].get_clim()
    flat = want.max() - want.min() <= 1e-6*np.abs(want).max()  # matplotlib widens the range of constant data
    ctx.ok((lo <= want.min() and hi >= want.max()) if flat else (abs(lo - want.min()) <= lim and abs(hi - want.max()) <= lim), "the colour range is the range of the values", got=(lo, hi), want=(want.min(), want.max()), **d)
    bars(ctx, fig, ax, qm[0], colorbar, **d)
    ctx.event("2D values compared", want.size)
    return ax


def bars(ctx, fig, ax, artist, colorbar, **d):
    other = [a for a in fig.axes if a is not ax]
    ctx.ok(len(other) == (1 if colorbar else 0) and (artist.colorbar is not None) == colorbar, "a colour bar is shown exactly if requested",
           requested=colorbar, other_axes=len(other), **d)
    if colorbar and artist.colorbar is not None:
        ctx.ok(artist.colorbar.ax in other and tuple(artist.colorbar.mappable.get_clim()) == tuple(artist.get_clim()), "the colour bar belongs to the plotted values", **d)


def vertices(poly):
    """Distinct vertices of the drawn polygons."""
    v = getattr(poly, "_faces", None)
    if v is None:
        v = np.asarray(poly._vec, float)[:3].T
    else:
        bad = getattr(poly, "_invalid_vertices", False); v = np.asarray(v, float)
        v = v[~bad] if isinstance(bad, np.ndarray) else v.reshape(-1, 3)
    return np.unique(v.reshape(-1, 3), axis=0)


def judge_3d(ctx, fig, Z, R, T, cmap, colorbar, **d):
    from scipy.spatial import cKDTree
    axs = mesh_axes(fig)
    if not ctx.ok(len(axs) == 1 and axs[0].name == "3d", "one 3D plot is on the figure", axes=[a.name for a in fig.axes], **d):
        return None
    ax = axs[0]; polys = [c for c in ax.collections if type(c).__name__ == "Poly3DCollection"]
    if not ctx.ok(len(polys) == 1, "one surface is on the axes", found=[type(c).__name__ for c in ax.collections], **d):
        return None
    V = vertices(polys[0]); Z = np.asarray(Z, float); TT, RR = np.meshgrid(T, R); P = np.stack([RR*np.cos(TT), RR*np.sin(TT), Z], -1).reshape(-1, 3)
    size = max(1.0, np.abs(Z).max()); P[:, 2] /= size; W = V.copy(); W[:, 2] /= size
    dist, idx = cKDTree(P).query(W)
    ctx.ok(np.all(dist <= 1e-9), "the drawn points are points of the surface", error=float(dist.max()), point=V[dist.argmax()], nearest=P[idx[dist.argmax()]]*[1, 1, size], **d)
    used = np.zeros(len(P), bool); near = cKDTree(W).query(P)[0] <= 1e-9; used |= near; used = used.reshape(Z.shape)
    # drawn lines: first and last line in each direction and, for small surfaces, all points
    if max(Z.shape) <= 50:
        ctx.ok(used.all(), "all points of the surface are drawn", missing=int((~used).sum()), **d)
    ctx.ok(used[0].mean() >= 0.99 and used[-1].mean() >= 0.99 and used[:, 0].mean() >= 0.99 and used[:, -1].mean() >= 0.99, "the whole surface is drawn",
           borders=[float(x.mean()) for x in (used[0], used[-1], used[:, 0], used[:, -1])], **d)
    ctx.ok(used.any(0).sum() >= min(Z.shape[1], 30) and used.any(1).sum() >= min(Z.shape[0], 30), "the surface is drawn with sufficient points", **d)
    ctx.ok(polys[0].get_cmap().name == cmap, "the requested colour map is used", got=polys[0].get_cmap().name, want=cmap, **d)
    c = np.asarray(polys[0].get_array() if polys[0].get_array() is not None else [], float).ravel()
    if ctx.ok(c.size > 0 and np.all(c >= Z.min() - 1e-9*size) and np.all(c <= Z.max() + 1e-9*size), "faces of the surface are coloured by its values", values=[c.min(), c.max()] if c.size else None, want=[Z.min(), Z.max()], **d):
        lo, hi = polys[0].get_clim()
        ctx.ok(Z.min() - 1e-9*size <= lo <= c.min() + 1e-9*size and c.max() - 1e-9*size <= hi <= Z.max() + 1e-9*size or np.ptp(c) <= 1e-9*size, "colours span the values of the surface",
               range=[lo, hi], values=[c.min(), c.max()], data=[Z.min(), Z.max()], **d)
    lims = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]); lo, hi = P.min(0)*[1, 1, size], P.max(0)*[1, 1, size]
    ctx.ok(np.all(np.sort(lims, 1)[:, 0] <= lo + 1e-9) and np.all(np.sort(lims, 1)[:, 1] >= hi - 1e-9), "the whole surface is visible", limits=lims, **d)
    bars(ctx, fig, ax, polys[0], colorbar, **d)
    ctx.event("3D vertices compared", len(V))
    return ax


def draw(ctx, fig, **d):
    with ctx.guard("the figure can be rendered"):
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        c = fig.canvas if hasattr(fig.canvas, "buffer_rgba") else FigureCanvasAgg(fig)
        c.draw(); b = np.asarray(c.buffer_rgba())
        ctx.ok(len(np.unique(b.reshape(-1, 4), axis=0)) >= 2, "the rendered figure is not empty", **d)


def frozen(*arrays):
    return [np.array(a, copy=True) for a in arrays]


def unchanged(a, b):
    return all(x.shape == np.shape(y) and np.array_equal(x, np.asarray(y)) for x, y in zip(a, b))


# ---------------------------------------------------------------- sums on figures
def sums_of(ctx, item):
    from zernpy import ZernPol
    from zernpy.zernikepol import zernikes_surface
    plt = backend(); label, count = item; rng = ctx.rng("sums", label); bystander = plt.figure("bystander"); bystander.add_subplot().plot([3, 1, 2])
    for k in range(count):
        orders, cs = terms(rng, 12, int(rng.integers(1, 6))); pols = [ZernPol(m=m, n=n) for m, n in orders]
        if not np.any(cs):
            cs = cs + 1.0
        c, ps = container(rng, cs, pols)
        proj = str(rng.choice(["2d", "2D", "3d", "3D"])); show = bool(rng.integers(2)); cmap = str(rng.choice(MAPS)); default = bool(rng.random() < 0.4)
        fig = figure(rng, plt); known = set(plt.get_fignums()); lines = len(bystander.axes[0].lines)
        kw = dict(show_range=show, color_map=cmap, projection=proj)
        if rng.random() < 0.15:
            kw.pop("show_range"); show = True
        if rng.random() < 0.15:
            kw.pop("color_map"); cmap = "coolwarm"
        if rng.random() < 0.15 and proj.lower() == "2d":
            kw.pop("projection")
        d = dict(terms=orders, coefficients=list(map(float, cs)), projection=proj, default=default)
        ctx.case((label, k, str(orders), proj, show, cmap, default), show=show, color_map=cmap, **d)
        three = proj.lower() == "3d"
        with ctx.guard("plotting works"):
            if default:
                before = frozen(cs); got = ZernPol.plot_sum_zernikes_on_fig(fig, c, ps, **kw)
                pv = ZernPol.gen_equal_polar_mesh() if three else ZernPol.gen_polar_coordinates(); R, T = pv.R, pv.Theta
                Z, tol = oracle_sum(orders, cs, R[:, None], T[None, :])
                ctx.ok(unchanged(before, [np.asarray(c, float)]), "the data passed in is not modified")
                Z2 = ZernPol.sum_zernikes(c, ps, R, T, get_surface=True)
                ctx.ok(np.all(np.abs(Z2 - Z) <= tol), "the plotted sum is the sum of the polynomials")
                Z = Z2
            else:
                form = int(rng.integers(0, 4))
                if form == 0:
                    s = ZernPol.gen_zernikes_surface(c, ps, r_step=float(rng.choice([0.05, 0.02, 0.1, 0.2])), theta_rad_step=float(rng.choice([0.2, 0.05, 0.1, np.pi/6])))
                elif form == 1:
                    s = ZernPol.gen_zernikes_surface(c, ps, equal_n_coordinates=True, n_points=int(rng.choice([5, 20, 49, 50, 51, 99, 137])))
                else:  # own coordinates and values, part of the disc, different lengths
                    R = np.sort(rng.random(int(rng.integers(3, 30)))); T = np.sort(rng.random(int(rng.integers(3, 40)))*2*np.pi)
                    if form == 2:
                        Z = rng.normal(size=(len(R), len(T)))
                    else:
                        Z = np.asarray(ZernPol.sum_zernikes(c, ps, R, T, get_surface=True))
                    s = zernikes_surface(Z, R, T)
                before = frozen(*s); got = ZernPol.plot_sum_zernikes_on_fig(fig, use_defaults=False, zernikes_sum_surface=s, **kw) if rng.integers(2) else \
                    ZernPol.plot_sum_zernikes_on_fig(fig, c, ps, False, s, **kw)
                ctx.ok(unchanged(before, s), "the data passed in is not modified"); Z, R, T = before
            ctx.ok(got is fig, "the given figure is returned", got=type(got).__name__)
            ctx.ok(set(plt.get_fignums()) == known and len(bystander.axes) == 1 and len(bystander.axes[0].lines) == lines and not bystander.axes[0].collections,
                   "only the given figure is drawn on", figures=sorted(set(plt.get_fignums()) ^ known))
            (judge_3d if three else judge_2d)(ctx, fig, Z, R, T, cmap, show)
            ctx.ok(not fig.texts and fig.get_suptitle() != "old", "the figure is cleared before plotting", texts=[t.get_text() for t in fig.texts])
            if k % 8 == 0:
                draw(ctx, fig)
            if rng.random() < 0.3:  # plot something else on the same figure
                Z2 = ZernPol.gen_zernikes_surface([1.0, -0.5], [ZernPol(osa=4), ZernPol(osa=8)], 0.1, 0.2); p2 = "2d" if three else "3d"
                ZernPol.plot_sum_zernikes_on_fig(fig, use_defaults=False, zernikes_sum_surface=Z2, projection=p2, show_range=not show)
                (judge_2d if three else judge_3d)(ctx, fig, Z2.ZernSurf, Z2.R, Z2.Theta, "coolwarm", not show, after="another plot")
        if plt.fignum_exists(getattr(fig, "number", -1)):
            plt.close(fig)
    plt.close("all")


def sums(ctx):
    ctx.pmap(sums_of, [(i, ctx.scale(30, 500)) for i in range(8)])


# ---------------------------------------------------------------- profiles
def profiles_of(ctx, item):
    from zernpy import ZernPol
    from zernpy.zernikepol import polar_vectors
    plt = backend(); label, todo = item; rng = ctx.rng("profiles", label)
    for k, (m, n) in enumerate(todo):
        proj = str(rng.choice(["2d", "2D", "3d", "3D"])); cmap = str(rng.choice(MAPS)); title = bool(rng.integers(2)); default = bool(rng.integers(2)); z = ZernPol(m=m, n=n)
        kw = dict(color_map=cmap, show_title=title, projection=proj); three = proj.lower() == "3d"; d = dict(m=m, n=n, projection=proj, default=default)
        ctx.case((m, n, proj, cmap, title, default, k), nontrivial=n > 0, title=title, color_map=cmap, **d)
        known = set(plt.get_fignums())
        with ctx.guard("plotting works"):
            if default:
                pv = ZernPol.gen_equal_polar_mesh() if three else ZernPol.gen_polar_coordinates()
            elif rng.integers(2):
                pv = ZernPol.gen_polar_coordinates(float(rng.choice([0.05, 0.1])), float(rng.choice([0.1, 0.3])))
            else:
                pv = polar_vectors(np.sort(rng.random(int(rng.integers(3, 30)))), np.sort(rng.random(int(rng.integers(3, 40)))*2*np.pi))
            before = frozen(*pv)
            res = ZernPol.plot_profile(z, use_defaults=default, polar_coordinates=() if default else pv, **kw)
            new_figs = set(plt.get_fignums()) - known
            ctx.ok(unchanged(before, pv), "the data passed in is not modified")
            if not ctx.ok(res is None and len(new_figs) == 1, "one new figure is created", figures=sorted(new_figs), **d):
                continue
            fig = plt.figure(new_figs.pop()); R, T = before; Z, tol = oracle_sum([(m, n)], [1.0], R[:, None], T[None, :])
            Zs = ZernPol.sum_zernikes([1.0], [z], R, T, get_surface=True)
            ctx.ok(np.all(np.abs(Zs - Z) <= tol), "the plotted profile is the polynomial")
            ax = (judge_3d if three else judge_2d)(ctx, fig, Zs, R, T, cmap, False, **d)
            if ax is not None and not three:
                ctx.ok(ax.get_title() == (z.get_polynomial_name() if title else ""), "the title is the name of the polynomial if requested", got=ax.get_title(), requested=title, **d)
            if k % 6 == 0:
                draw(ctx, fig)
        plt.close("all")


def profiles(ctx):
    orders = o.all_orders(ctx.scale(8, 14)); reps = ctx.scale(1, 6); todo = [x for x in orders for _ in range(reps)] + [(5, 21), (-20, 20), (0, 30)]
    ctx.pmap(profiles_of, [(i, todo[i::8]) for i in range(8)])


# ---------------------------------------------------------------- kernels
def kernels_of(ctx, item):
    from zernpy import ZernPol, ZernPSF
    plt = backend(); label, count = item; rng = ctx.rng("kernels", label)
    for k in range(count):
        many = k % 3 == 2; orders = [(0, 0)] if k % 7 == 3 else [tuple(x) for x in np.array(o.all_orders(6))[rng.choice(28, 3 if many else 1, replace=False)].tolist()]
        NA, wl, px = physical(rng); size = int(rng.choice([3, 5, 9])); a = amplitudes(rng, orders); single = len(orders) == 1
        pols = [ZernPol(m=m, n=n) for m, n in orders]; coeffs = [float(x*wl) for x in a]
        psf = new(pols[0] if single else pols, coeffs[0] if single else np.array(coeffs), NA, wl, px, size, 20, 36)
        tag = str(rng.choice(["", "first", "#2 of 3"])) + str(label) + "-" + str(k)
        ctx.case((label, k, str(orders), tag), orders=orders, size=size)
        with ctx.guard("plotting works"):
            if k % 2:
                calculate(psf, accelerated=True if not single or k % 4 else False)
            else:
                psf.kernel = rng.random((size, size))
            K = np.array(psf.kernel); known = set(plt.get_fignums()); state = [np.array(psf.kernel), psf.kernel_size, psf.NA, psf.wavelength, psf.pixel_size]
            res = psf.plot_kernel(tag) if rng.integers(2) else psf.plot_kernel(id_str=tag)
            figs = set(plt.get_fignums()) - known
            if not ctx.ok(res is None and len(figs) == 1, "one new figure is created", figures=sorted(figs)):
                continue
            fig = plt.figure(figs.pop()); judge_image(ctx, fig, K, what="kernel")
            name = fig.get_label()
            ctx.ok(tag in name, "the figure is named by the given text", name=name, text=tag)
            if single:
                z = pols[0]
                ctx.ok(str(z.get_mn_orders()) in name or (orders[0] == (0, 0) and "Airy" in name), "the figure is named by the polynomials", name=name)
                ctx.ok(str(round(coeffs[0], 2)) in name, "the figure is named by the coefficient", name=name, want=round(coeffs[0], 2))
            else:
                ctx.ok(all(str(x) in name for x in orders), "the figure is named by the polynomials", name=name)
            ctx.ok(np.array_equal(psf.kernel, K) and [psf.kernel_size, psf.NA, psf.wavelength, psf.pixel_size] == state[1:], "plotting does not change the PSF")
            if k % 4 == 0:
                draw(ctx, fig)
            if k % 5 == 0:  # again, with another kernel, under the same name
                psf.kernel = rng.random((size + 2, size + 2)); psf.plot_kernel(tag); fig2 = plt.figure(fig.number)
                ctx.ok(set(plt.get_fignums()) - known == {fig.number}, "the same name is the same figure"); judge_image(ctx, fig2, psf.kernel, what="second kernel"); ctx.ok(len(fig2.axes) == 2, "only the colour bar of the drawn kernel is shown", found=len(fig2.axes))
            other = plt.figure("other"); psf.plot_kernel(tag + "x")
            ctx.ok(not other.axes, "plots of other names are left untouched")
        plt.close("all")


def judge_image(ctx, fig, K, what, bars=True, colorbar=True):
    ims = [im for a in fig.axes for im in a.images if not hasattr(a, "_colorbar")]
    if not ctx.ok(len(ims) == 1, "one image is on the figure", what=what, found=len(ims)):
        return
    im = ims[-1]; A = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
    ctx.ok(A.shape == K.shape and np.array_equal(A, np.asarray(K, float)), "the drawn image is the data", what=what, got=A.shape, want=K.shape)
    ax = im.axes; h, w = K.shape; ext = im.get_extent()
    ctx.ok(np.allclose(sorted(ext[:2]), [-0.5, w - 0.5]) and np.allclose(sorted(ext[2:]), [-0.5, h - 0.5]) and ext[0] < ext[1] and
           (ext[2] > ext[3]) == (im.origin == "upper") and ax.get_ylim()[0] > ax.get_ylim()[1] and ax.get_xlim()[0] < ax.get_xlim()[1],
           "pixels are drawn at their indices, the first row on top", what=what, extent=ext, ylim=ax.get_ylim(), origin=im.origin)
    ctx.ok(np.allclose(sorted(ax.get_xlim()), [-0.5, w - 0.5]) and np.allclose(sorted(ax.get_ylim()), [-0.5, h - 0.5]), "the whole image is visible", what=what)
    if bars and colorbar:
        ctx.ok(im.colorbar is not None, "the kernel is shown with a colour bar")
    lo, hi = im.get_clim(); ctx.ok((lo, hi) == (float(A.min()), float(A.max())) or (A.min() == A.max() and lo <= A.min() <= hi), "the colour range is the range of the values", what=what)


def kernels(ctx):
    ctx.pmap(kernels_of, [(i, ctx.scale(8, 80)) for i in range(8)])


def disks(ctx):
    """visualize_convolution: the sample and its convolution."""
    plt = backend(); from zernpy import ZernPol, ZernPSF
    rng = ctx.rng("disks")
    for k in range(ctx.scale(12, 60)):
        radius = float(rng.choice([1.0, 2.0, 4.0, 5.5, 7.0, 0.5])); top = int(rng.choice([255, 100, 1000, 65535])); size = int(rng.choice([3, 5]))
        psf = ZernPSF(ZernPol(osa=int(rng.integers(0, 15)))); warnings.simplefilter("ignore"); K = rng.random((size, size)) + 0.1; psf.kernel_size = size; psf.kernel = K.copy()
        ctx.case((k, radius, top, size), radius=radius, max_intensity=top)
        with ctx.guard("plotting works"):
            plt.close("all")
            if k % 4 == 0:
                psf.visualize_convolution(); radius, top = 4.0, 255
            else:
                psf.visualize_convolution(radius, max_intensity=top)
            figs = [plt.figure(i) for i in plt.get_fignums()]
            if not ctx.ok(len(figs) == 2, "two figures show the sample and its convolution", found=len(figs)):
                continue
            A, B = [np.asarray(f.axes[0].images[-1].get_array()) for f in figs]
            c = A.shape[0]//2; yy, xx = np.mgrid[:A.shape[0], :A.shape[1]]; dist = np.hypot(yy - c, xx - c); rr = max(radius, 1.0)
            ctx.ok(A.shape[0] == A.shape[1] and A.shape[0] % 2 == 1 and A[c, c] == top == A.max(), "the sample is a centred disk of the given intensity", shape=A.shape, middle=A[c, c], top=top)
            ctx.ok(np.array_equal(A, A.T) and np.array_equal(A, A[::-1]) and np.all(A[dist > 1.26*rr + 0.8] == 0), "the sample is a centred disk of the given intensity", shape=A.shape)
            order = np.argsort(dist.ravel()); ctx.ok(np.all(np.diff(A.astype(float).ravel()[order]) <= 0.5 + 1e-9), "the sample falls off from the centre")
            want = psf.convolute_img(A.copy())
            ctx.ok(B.dtype == A.dtype and np.array_equal(B, want), "the second figure shows the convolution of the sample with the kernel")
            for f, X in zip(figs, (A, B)):
                judge_image(ctx, f, X, what="disk", colorbar=False)
            ctx.ok(np.array_equal(psf.kernel, K), "plotting does not change the PSF")
            if k % 3 == 0:  # again
                psf.kernel = rng.random((size, size)) + 0.1; psf.visualize_convolution(radius, top)
                ctx.ok(len(plt.get_fignums()) == 2, "the same name is the same figure")
                for f, X in zip(figs, (A, psf.convolute_img(A.copy()))):
                    judge_image(ctx, f, X, what="second disk", colorbar=False)
    plt.close("all")


def rejected(ctx):
    from zernpy import ZernPol
    from zernpy.zernikepol import polar_vectors, zernikes_surface
    plt = backend(); z = ZernPol(osa=7); fig = plt.figure(); fig.add_subplot().plot([1, 2, 3]); s = ZernPol.gen_zernikes_surface([1.0], [z], 0.1, 0.3)
    bad = {"nothing": dict(), "coefficients only": dict(coefficients=[1.0]), "polynomials only": dict(polynomials=[z]), "different lengths": dict(coefficients=[1.0, 2.0], polynomials=[z]),
           "no surface": dict(use_defaults=False), "no surface, but polynomials": dict(use_defaults=False, coefficients=[1.0], polynomials=[z]),
           "incomplete surface": dict(use_defaults=False, zernikes_sum_surface=(s.ZernSurf, s.R)), "surface with the default flag": dict(zernikes_sum_surface=s),
           "long surface": dict(use_defaults=False, zernikes_sum_surface=(s.ZernSurf, s.R, s.Theta, 1))}
    for proj in ("2d", "3D"):
        for name, kw in bad.items():
            ctx.case(("sum", name, proj), what=name, projection=proj); known = plt.get_fignums()
            ctx.raises(ValueError, lambda: ZernPol.plot_sum_zernikes_on_fig(fig, projection=proj, **kw), rule="missing data is rejected with ValueError", what=name)
            ctx.ok(plt.get_fignums() == known and len(fig.axes) == 1 and len(fig.axes[0].lines) == 1, "a rejected call leaves the figures as they were", what=name)
        for name, pc in {"nothing": (), "one vector": (s.R,), "three vectors": (s.R, s.Theta, s.R)}.items():
            ctx.case(("profile", name, proj), what=name, projection=proj); known = plt.get_fignums()
            ctx.raises(ValueError, lambda: ZernPol.plot_profile(z, use_defaults=False, projection=proj, polar_coordinates=pc), rule="missing data is rejected with ValueError", what=name)
            ctx.ok(plt.get_fignums() == known, "a rejected call leaves the figures as they were", what=name)
    plt.close("all")


SECTIONS = [("rejected calls", rejected), ("sums", sums), ("profiles", profiles), ("kernels", kernels), ("disks", disks)]
