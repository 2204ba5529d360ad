"""C17: convolution, against an independent direct convolution."""
import numpy as np
from .. import oracle as o
from .c11 import physical, amplitudes, calculate
from .c12 import new

LEVEL = "exploration"
RULE = ("A case is one convolute_img call: image (size, dtype, contents, memory layout), kernel and scaling flag; non-trivial if the image is not constant; "
        "distinct by the generated image, kernel and flag.")
ASSUMPTIONS = ["Integer results may differ from the real value of the convolution by less than 1 (conversion to the type of the image), constant images by nothing.",
               "Images have sides not smaller than half of the kernel: scipy.ndimage.convolve reads outside of its buffer for kernels of more than 8 image sides.",
               "Scaling is judged for images whose convolution has a positive maximum (at least 2% of its largest module)."]
TYPES = ("uint8", "uint16", "int32", "int64", "float32", "float64", "uint32", "int16")


def direct(img, K):
    """Reflecting borders ((d c b a | a b c d | d c b a)), kernel flipped, sum over all offsets."""
    c = K.shape[0]//2; P = np.pad(img.astype(np.float64), c, mode="symmetric"); h, w = img.shape; R = np.zeros((h, w)); F = K[::-1, ::-1]
    for i in range(K.shape[0]):
        for j in range(K.shape[1]):
            R += F[i, j]*P[i:i + h, j:j + w]
    return R/K.sum()


def holder(K):
    from zernpy import ZernPol, ZernPSF
    psf = ZernPSF(ZernPol(osa=5)); psf.kernel = K; psf.kernel_size = K.shape[0]
    return psf


def judge(ctx, psf, img, scaled, default=False, **d):
    K = np.array(psf.kernel); before = img.copy()
    R = psf.convolute_img(img) if default else psf.convolute_img(img, scale2original=scaled)
    ctx.ok(np.array_equal(img, before), "the image is left unchanged", **d)
    ctx.ok(np.array_equal(psf.kernel, K), "the kernel is left unchanged", **d)
    if not ctx.ok(isinstance(R, np.ndarray) and R.shape == before.shape and R.dtype == before.dtype, "the result has the shape and type of the image",
                  got=(np.shape(R), str(getattr(R, "dtype", None))), want=(before.shape, str(before.dtype)), **d):
        return None
    ctx.ok(not np.shares_memory(R, img), "the result is an array of its own", **d)
    want = direct(before, K)
    if scaled and want.max() != 0:
        want = want*(float(before.max())/want.max())
    top = max(1e-300, float(np.abs(want).max()))
    if R.dtype.kind in "iu":
        tol = 1.0 + 1e-9*top
    else:
        tol = top*(1e-12 if R.dtype == np.float64 else 3e-7)
    err = np.abs(R.astype(np.float64) - want)
    ctx.ok(np.all(np.isfinite(R.astype(np.float64))) and err.max() <= tol, "the result is the convolution with the kernel divided by its sum", error=float(err.max()), tol=tol, scaled=scaled,
           at=np.unravel_index(np.argmax(err), err.shape), **d)
    if scaled and want.max() > 0:
        ctx.ok(abs(float(R.max()) - float(before.max())) <= (1e-9*top if R.dtype.kind in "iu" else tol), "scaling keeps the maximum of the image", got=R.max(), want=before.max(), **d)
    if np.all(before == before.flat[0]):
        v = float(before.flat[0])
        ctx.ok(np.max(np.abs(R.astype(np.float64) - v)) <= (0 if R.dtype.kind in "iu" and v < 2**40 else tol + 1e-12*abs(v)), "a constant image stays constant",
               got=(R.min(), R.max()), want=v, scaled=scaled, **d)
        ctx.event("constant images")
    ctx.event(f"convolved {R.dtype}")
    return R


def kernel(rng):
    n = int(rng.choice([1, 3, 3, 5, 7, 11, 19])); kind = int(rng.integers(0, 5)); c = n//2
    if kind == 0: K = rng.random((n, n))
    elif kind == 1:
        i, j = np.mgrid[0:n, 0:n] - c; K = np.exp(-((i - 0.4)**2 + 2*(j + 0.3)**2)/(1 + n))
    elif kind == 2: K = np.zeros((n, n)); K[int(rng.integers(n)), int(rng.integers(n))] = float(rng.choice([1.0, 0.3]))  # a shift
    elif kind == 3: K = rng.random((n, n))**8; K[0, -1] = 1.0
    else: K = rng.random((n, n))*float(rng.choice([1e-3, 1e-9, 40.0]))
    if rng.random() < 0.2:
        K = np.asfortranarray(K)
    return K


def image(rng, dtype, least=1):
    h, w = (max(int(x), least) for x in rng.choice([1, 2, 3, 5, 8, 13, 24, 40], 2)); kind = int(rng.integers(0, 7))
    if np.dtype(dtype).kind in "iu":
        top = min(np.iinfo(dtype).max, 2**31 - 1) if rng.random() < 0.5 else int(rng.integers(1, 200))
    else:
        top = float(rng.choice([1.0, 1e-3, 255.0, 1e6, float(rng.uniform(0.1, 10))]))
    if kind == 0: img = np.full((h, w), top)
    elif kind == 1: img = np.zeros((h, w))
    elif kind == 2: img = np.zeros((h, w)); img[int(rng.integers(h)), int(rng.integers(w))] = top
    elif kind == 3: img = rng.random((h, w))*top
    elif kind == 4: img = (rng.random((h, w)) < 0.3)*top
    elif kind == 5: img = np.linspace(0, top, h*w).reshape(h, w)
    else: img = rng.random((h, w))**6*top; img[-1, -1] = top
    img = img.astype(dtype)
    layout = int(rng.integers(0, 4))
    if layout == 1: img = np.asfortranarray(img)
    elif layout == 2: img = np.repeat(img, 2, axis=1)[:, ::2]
    elif layout == 3: img = img[::-1, ::-1]
    if rng.random() < 0.15:
        img.flags.writeable = False
    return img, kind


def random_of(ctx, item):
    label, count = item
    rng = ctx.rng("random", label)
    for k in range(count):
        dtype = TYPES[int(rng.integers(len(TYPES)))]; K = kernel(rng); img, kind = image(rng, dtype, (K.shape[0] + 1)//2); psf = holder(K); scaled = bool(rng.integers(2))
        ctx.case((label, k), nontrivial=kind > 0, dtype=dtype, shape=img.shape, kernel=K.shape, scaled=scaled, kind=kind)
        with ctx.guard("convolution works"):
            judge(ctx, psf, img, scaled, default=scaled and k % 3 == 0, dtype=dtype, shape=img.shape, kernel=K.shape, kind=kind)
    for k in range(count//4):  # negative pixels
        h, w = (int(x) for x in rng.integers(10, 25, 2)); img = rng.normal(size=(h, w))*float(rng.choice([1.0, 100.0])); img = img.astype(["float64", "int16", "float32"][k % 3])
        ctx.case((label, k, "negative"), shape=img.shape)
        psf = holder(kernel(rng)); R = direct(img, np.array(psf.kernel)); scaled = bool(k % 4) and R.max() > 0.02*np.abs(R).max() and img.max() > 0
        if scaled and img.dtype.kind == "i" and max(-R.min(), R.max())*img.max()/R.max() > np.iinfo(img.dtype).max - 2:
            scaled = False  # the scaled image doesn't fit into the type
        with ctx.guard("convolution works"):
            judge(ctx, psf, img, scaled, dtype=str(img.dtype), shape=img.shape); ctx.event("negative pixels, scaled", int(scaled))


def random(ctx):
    ctx.pmap(random_of, [(i, ctx.scale(160, 3000)) for i in range(8)])


def large_of(ctx, k):
    """Images and kernels of realistic sizes, and long images with large kernels."""
    rng = ctx.rng("large", k)
    n = int(rng.choice([19, 31, 51, 65])); c = n//2; i, j = np.mgrid[0:n, 0:n] - c
    K = np.exp(-((i - 1.4)**2 + 2*(j + 2.3)**2)/(2.0 + n*float(rng.choice([0.3, 3, 30]))))*(0.5 + rng.random((n, n)))
    h, w = [(200, 300), (301, 200), (256, 256), (64, 500), (500, 70), (480, 400)][k % 6]
    dtype = TYPES[int(rng.integers(len(TYPES)))]; top = 1.0 if np.dtype(dtype).kind == "f" else min(np.iinfo(dtype).max, 40000)
    img = rng.random((h, w))**3*top if k % 2 else (rng.random((h, w)) < 0.01)*float(top)
    img = img.astype(dtype)
    if k % 4 == 0:
        img = np.asfortranarray(img)
    ctx.case(("large", k), dtype=dtype, shape=img.shape, kernel=K.shape)
    with ctx.guard("convolution works"):
        judge(ctx, holder(K), img, bool(k % 3), dtype=dtype, shape=img.shape, kernel=K.shape); ctx.event("large images")


def large(ctx):
    ctx.pmap(large_of, list(range(ctx.scale(12, 80))))


def constants(ctx):
    """Constant images of every 8-bit value, many kernels."""
    rng = ctx.rng("constants")
    for k in range(ctx.scale(6, 40)):
        psf = holder(kernel(rng))
        for v in range(0, 256, 1 if ctx.thorough else 3):
            ctx.case((k, v), nontrivial=False, value=v)
            with ctx.guard("convolution works"):
                judge(ctx, psf, np.full((10, 11), v, dtype="uint8"), bool((v + k) % 2), value=v)


def point(ctx):
    """A single bright pixel reproduces the kernel around it (kernels of the library, asymmetric)."""
    from zernpy import ZernPol
    rng = ctx.rng("point")
    for k in range(ctx.scale(20, 150)):
        n = int(rng.integers(1, 6)); m = int(rng.choice(np.arange(-n, n + 1, 2))); NA, wl, px = physical(rng); a = amplitudes(rng, [(m, n)])[0]
        size = int(rng.choice([3, 5, 9])); value = float(rng.choice([1.0, 200.0, 1e-4]))
        ctx.case((k, m, n, float(a), size, value), m=m, n=n, alpha=float(a), size=size, value=value)
        with ctx.guard("convolution works"):
            psf = new(ZernPol(m=m, n=n), float(a*wl), NA, wl, px, size, 40, 60); K = calculate(psf, normalized=bool(k % 2), accelerated=True).copy()
            h, w = int(rng.integers(2*size, 30)), int(rng.integers(2*size, 30)); c = size//2
            y, x = int(rng.integers(size, h - size + 1)), int(rng.integers(size, w - size + 1))
            img = np.zeros((h, w)); img[y, x] = value
            for scaled in (False, True):
                R = judge(ctx, psf, img, scaled, m=m, n=n)
                if R is None:
                    continue
                want = np.zeros((h, w)); want[y - c:y + c + 1, x - c:x + c + 1] = K*value/(K.max() if scaled else K.sum())
                ctx.ok(np.abs(R - want).max() <= 1e-12*value, "a bright pixel reproduces the kernel around it", scaled=scaled, at=(y, x), m=m, n=n)
                ctx.event("asymmetric kernels", int(np.abs(K - K[::-1, ::-1]).max() > 1e-6))


def repeated(ctx):
    """The same object and image again, with other images in between."""
    rng = ctx.rng("repeated")
    for k in range(ctx.scale(15, 100)):
        psf = holder(kernel(rng)); img, _ = image(rng, "float64", 10); ctx.case(("repeat", k))
        with ctx.guard("convolution works"):
            A = psf.convolute_img(img); A0 = A.copy(); judge(ctx, psf, image(rng, "uint8", 10)[0], bool(k % 2)); B = psf.convolute_img(img)
            ctx.ok(np.array_equal(A0, B) and np.array_equal(A, A0), "convolving again gives the same image")


SECTIONS = [("random", random), ("large images", large), ("constants", constants), ("single pixel", point), ("repeated", repeated)]
