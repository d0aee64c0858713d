"""Independent reference models used as oracles (NumPy, double precision)."""
import numpy as np
from numpy.lib.stride_tricks import sliding_window_view

PADMODE = {"reflect": "symmetric", "mirror": "reflect", "nearest": "edge",
           "constant": "constant", "wrap": "wrap"}


def rmse(a, b):
    d = np.asarray(a, dtype=np.float64) - np.asarray(b, dtype=np.float64)
    return float(np.sqrt(np.mean(d * d)))


def psnr(a, b, data_range):
    d = np.asarray(a, dtype=np.float64) - np.asarray(b, dtype=np.float64)
    return float(10 * np.log10(float(data_range) ** 2 / np.mean(d * d)))


def window_means(a, w1, mode, cval=0.0):
    """Separable weighted mean of the window centred at every pixel."""
    r = len(w1) // 2
    p = np.pad(a, r, mode=PADMODE[mode],
               **({"constant_values": cval} if mode == "constant" else {}))
    for ax in range(a.ndim):
        p = np.moveaxis(sliding_window_view(p, len(w1), axis=ax) @ w1, ax, ax)
    return p


def ssim(a, b, data_range, win_size=None, gaussian_weights=True, alpha=1, beta=1, gamma=1,
         K1=0.01, K2=0.03, sigma=1.5, mode="reflect", cval=0):
    """(mean SSIM, bound on the single precision error of the implementation)"""
    x, y = np.asarray(a, np.float64), np.asarray(b, np.float64)
    given = win_size is not None
    if gaussian_weights:
        r = int(3.5 * sigma + 0.5)
        if not given:
            win_size = 2 * r + 1
        t = np.arange(-r, r + 1)
        w = np.exp(-0.5 * t**2 / sigma**2)
        w /= w.sum()
        cov = 1.0
        if given:
            n = win_size**x.ndim
            cov = n / (n - 1)
    else:
        if not given:
            win_size = 7
        w = np.full(win_size, 1.0 / win_size)
        n = win_size**x.ndim
        cov = n / (n - 1)

    # remove the offset of every image before squaring; shift invariant and exact
    def f(z):
        return window_means(z, w, mode, 0.0)

    if mode == "constant":
        ux, uy = window_means(x, w, mode, cval), window_means(y, w, mode, cval)
        # the implementation pads the products with cval as well
        vx = cov * (window_means(x * x, w, mode, cval) - ux * ux)
        vy = cov * (window_means(y * y, w, mode, cval) - uy * uy)
        vxy = cov * (window_means(x * y, w, mode, cval) - ux * uy)
    else:
        mx, my = x.mean(), y.mean()
        xs, ys = x - mx, y - my
        ux0, uy0 = f(xs), f(ys)
        vx = cov * (f(xs * xs) - ux0 * ux0)
        vy = cov * (f(ys * ys) - uy0 * uy0)
        vxy = cov * (f(xs * ys) - ux0 * uy0)
        ux, uy = ux0 + mx, uy0 + my
    pad = (win_size - 1) // 2
    sl = tuple(slice(pad, s - pad) for s in x.shape)
    ux, uy, vx, vy, vxy = (z[sl] for z in (ux, uy, vx, vy, vxy))
    scale = max(np.abs(x).max(), np.abs(y).max()) ** 2
    vx, vy = np.maximum(vx, 0), np.maximum(vy, 0)
    e64 = 1e-13 * scale
    vx = np.where(vx < e64, 0, vx)
    vy = np.where(vy < e64, 0, vy)
    vxy = np.where((vx == 0) | (vy == 0), 0, vxy)
    c1, c2 = (K1 * data_range) ** 2, (K2 * data_range) ** 2
    c3 = c2 / 2
    sx, sy = np.sqrt(vx), np.sqrt(vy)

    def div(p, q):
        with np.errstate(all="ignore"):
            return np.where((q == 0) & (p == 0), 1.0, p / np.where(q == 0, 1.0, q))

    stru = div(vxy + c3, sx * sy + c3)
    con = div(2 * sx * sy + c2, vx + vy + c2)
    lum = div(2 * ux * uy + c1, ux**2 + uy**2 + c1)
    val = lum**alpha * con**beta * stru**gamma
    # first-order error bound for single precision window moments
    e = 6e-7 * scale * cov
    esx = np.minimum(np.sqrt(e), e / np.maximum(sx, 1e-300))
    esy = np.minimum(np.sqrt(e), e / np.maximum(sy, 1e-300))
    ep = sx * esy + sy * esx + esx * esy

    def rel(err, q):
        return np.minimum(err / np.maximum(q, 1e-300), 4.0)

    e_s = rel(e + 2 * ep, sx * sy + c3)
    e_c = rel(2 * e + 2 * ep, vx + vy + c2)
    if K2 == 0:
        # contrast * structure = 2 vxy / (vx + vy): the product is what matters
        e_s = np.zeros_like(e_s) if (beta == 1 and gamma == 1) else e_s
        e_c = rel(6 * e + 3 * ep, vx + vy)
    e_l = rel(1e-6 * scale, ux**2 + uy**2 + c1)
    bound = alpha * e_l + beta * e_c + gamma * e_s
    return float(val.mean()), float(np.mean(np.minimum(bound, 4.0)))


def pad_correlate(img, kernel, mode="reflect"):
    """Direct correlation with a centred odd kernel, double precision."""
    k = np.asarray(kernel, np.float64)
    p = np.pad(np.asarray(img, np.float64), [(s // 2, s // 2) for s in k.shape],
               mode=PADMODE[mode])
    w = sliding_window_view(p, k.shape)
    return np.tensordot(w, k, axes=(tuple(range(-k.ndim, 0)), tuple(range(k.ndim))))


# ---------------------------------------------------------------------------- log-Gabor
def freq_axis(n):
    """Normalised frequency (Nyquist = 1) of every FFT bin."""
    s = (np.arange(n) + n // 2) % n - n // 2
    return s / (n / 2) if n % 2 == 0 else 2.0 * s / (n - 1)


def gabor(img, scales, orientations, min_wavelength=3, wavelength_scaling=3,
          bandwidth_param=0.55, d_theta_on_sigma=1.5):
    img = np.asarray(img, np.float64)
    spec = np.fft.fft2(img)
    y, x = np.meshgrid(freq_axis(img.shape[0]), freq_axis(img.shape[1]), indexing="ij")
    rad = np.hypot(x, y)
    rad[0, 0] = 1
    th = np.arctan2(-y, x)
    out = {}
    sig = np.pi / orientations / d_theta_on_sigma
    for o in range(orientations):
        d = th - o * np.pi / orientations
        d = np.abs((d + np.pi) % (2 * np.pi) - np.pi)
        spread = np.exp(-(d**2) / (2 * sig**2))
        for s in range(scales):
            f0 = 2.0 / (min_wavelength * wavelength_scaling**s)
            g = np.exp(-(np.log(rad / f0) ** 2) / (2 * np.log(bandwidth_param) ** 2)) * spread
            g[0, 0] = 0
            out[s, o] = np.fft.ifft2(spec * g)
    return out


# ----------------------------------------------------------------------------- block stats
def grid(n, block, stride):
    return range(0, n - block + 1, stride)


def block_maps(img, block, stride, fn):
    """fn(blocks) -> dict of per-block values; painted into stride-sized cells."""
    img = np.asarray(img, np.float64)
    w = sliding_window_view(img, (block, block))[::stride, ::stride]
    flat = w.reshape(w.shape[0], w.shape[1], -1)
    vals = fn(flat)
    out = []
    for v in vals:
        m = np.zeros(img.shape)
        big = np.repeat(np.repeat(v, stride, 0), stride, 1)
        m[: big.shape[0], : big.shape[1]] = big[: img.shape[0], : img.shape[1]]
        out.append(m)
    return out


def moments(flat):
    n = flat.shape[-1]
    mu = flat.mean(-1, keepdims=True)
    d = flat - mu
    d[(flat == flat[..., :1]).all(-1)] = 0  # the mean of equal values may be rounded
    m2 = (d**2).mean(-1)
    sd = np.sqrt(m2 * n / (n - 1))
    with np.errstate(all="ignore"):
        sk = np.where(m2 > 0, (d**3).mean(-1) / m2**1.5, 0.0)
        ku = np.where(m2 > 0, (d**4).mean(-1) / m2**2, 0.0)
    return sd, sk, ku


# ---------------------------------------------------------------------------------- MAD
def mad(a, b, data_range=255, block_size=16, block_overlap=0.75, beta_1=0.467, beta_2=0.130,
        thresh_1=None, thresh_2=None, account_monitor=False, display_function=None,
        csf_function=None, luminance_function=None, ms_scale=1, orientations_num=4,
        scales_num=5, weights=(0.5, 0.75, 1, 5, 6)):
    """(combination, detection, appearance, margin of the luminance threshold)"""
    x, y = np.asarray(a, np.float64), np.asarray(b, np.float64)
    m, n = x.shape
    bs = block_size
    stride = bs - int(block_overlap * bs)
    if thresh_1 and thresh_2:
        beta_1 = np.exp(-thresh_1 / thresh_2)
        beta_2 = 1 / (np.log(10) * thresh_2)
    cpd = 32
    if account_monitor:
        cpd = (display_function["disp_res"] * display_function["view_dis"]
               * np.tan(np.pi / 180) / 2)
    csf_p = {"lambda_csf": 0.114, "f_peak": 7.8909, **(csf_function or {})}
    lum_p = {"b": 0.0, "k": 0.02874, "gamma": 2.2, **(luminance_function or {})}
    # contrast sensitivity
    v, u = np.meshgrid(np.arange(m) - (m - 1) / 2, np.arange(n) - (n - 1) / 2, indexing="ij")
    f = np.hypot(u, v) * 2 * cpd / n
    th = np.arctan2(v, u)
    f = f / (0.15 * np.cos(4 * th) + 0.85)
    lam = csf_p["lambda_csf"]
    csf = 2.6 * (0.0192 + lam * f) * np.exp(-((lam * f) ** 1.1))
    csf = np.where(f < csf_p["f_peak"], 0.9809, csf)

    def perceived(z):
        lum = lum_p["b"] + lum_p["k"] * z ** (lum_p["gamma"] / 3)
        s = np.fft.fftshift(np.fft.fft2(lum))
        return np.real(np.fft.ifft2(np.fft.ifftshift(csf * s)))

    io, idst = perceived(x), perceived(y)
    err = idst - io
    mu, so = block_maps(io, bs, stride, lambda t: (t.mean(-1), t.std(-1, ddof=1)))
    (se,) = block_maps(err, bs, stride, lambda t: (t.std(-1, ddof=1),))
    with np.errstate(all="ignore"):
        lo = np.log(so / mu)
        le = np.log(np.where(mu > 0.5, se / mu, 0.0))
        msk = np.where((lo > -5) & (le > lo), le - lo, 0.0)
        msk = np.where((lo <= -5) & (le > -5), le + 5, msk)
    msk = msk / ms_scale
    d2 = (x - y) ** 2
    # mean over the block around each pixel; scipy puts the centre of an even window right
    lft = bs - 1 - bs // 2
    p = np.pad(d2, ((lft, bs - 1 - lft),) * 2, mode="symmetric")
    lm = sliding_window_view(p, (bs, bs)).mean((-1, -2))
    q = (msk * lm)[bs:-bs, bs:-bs]
    det = np.sqrt(np.mean(q**2)) * 200
    w = np.asarray(weights, float)
    w = w / w.sum()
    ga = gabor(x, scales_num, orientations_num)
    gb = gabor(y, scales_num, orientations_num)
    st = np.zeros((m, n))
    flat = np.inf
    for (s, o) in ga:
        p1 = block_maps(np.abs(ga[s, o]), bs, stride, moments)
        p2 = block_maps(np.abs(gb[s, o]), bs, stride, moments)
        if w[s]:
            flat = min(flat, p1[0][bs:-bs, bs:-bs][p1[0][bs:-bs, bs:-bs] != 0].min(initial=np.inf),
                       p2[0][bs:-bs, bs:-bs][p2[0][bs:-bs, bs:-bs] != 0].min(initial=np.inf))
        st += w[s] * (np.abs(p1[0] - p2[0]) + 2 * np.abs(p1[1] - p2[1])
                      + np.abs(p1[2] - p2[2]))
    q = st[bs:-bs, bs:-bs]
    app = np.sqrt(np.mean(q**2))
    cell = mu[bs:-bs, bs:-bs]
    margin = float(np.min(np.abs(cell - 0.5))) if cell.size else 0.0

    def combine(d, ap):
        d, ap = max(d, 0.0), max(ap, 0.0)
        al = 1 / (1 + beta_1 * d**beta_2)
        return float(d**al * ap ** (1 - al))

    if flat < 1e-9 * max(x.max(), y.max()):
        margin = 0.0  # shape of pure rounding noise: not comparable
    return combine, float(det), float(app), margin


# ---------------------------------------------------------------------------------- GSM
def kernel_table():
    import json
    import os

    with open(os.path.join(os.path.dirname(__file__), "kernels.json")) as f:
        return {k: np.array(v) for k, v in json.load(f).items()}


K2 = ["gsm_kernel_2d_x", "gsm_kernel_2d_y", "gsm_kernel_2d_xy", "gsm_kernel_2d_yx"]
K3 = ["gsm_kernel_" + s for s in ("x", "y", "z", "xy1", "xy2", "yz1", "yz2", "xz1", "xz2",
                                  "xyz1", "xyz2", "xyz3", "xyz4")]


def gsm(a, b, data_range=255, c=200, p=0.1, tie=1e-9):
    """List of admissible values (several only when directions tie) and conditioning."""
    x, y = np.asarray(a, np.float64), np.asarray(b, np.float64)
    tab = kernel_table()
    ks = [tab[k] for k in (K2 if x.ndim == 2 else K3)]

    def strongest(z):
        g = [pad_correlate(z, k) for k in ks]
        s = np.array([np.abs(t).mean() for t in g])
        return [(g[i], s[i]) for i in range(len(g)) if s[i] >= s.max() * (1 - tie)]

    out, cond = [], True
    for gr, sr in strongest(x):
        for gm, sm in strongest(y):
            den = []
            if sr >= sm * (1 - tie):
                den.append(gr)
            if sm >= sr * (1 - tie):
                den.append(gm)
            for g in den:
                top = max(np.abs(gr).max(), np.abs(gm).max())
                with np.errstate(all="ignore"):
                    k = c / top
                    t = 1 - np.abs(gr - gm) / g
                    bot = 1 + t**2 + k
                    s = (2 * t + k) / bot
                    lum = 1 - ((x - y) / data_range) ** 2
                    q = (1 - p * s) * s + p * s * lum
                ok = np.isfinite(q)
                if not ok.any() or top == 0:
                    cond = False
                    continue
                if np.abs(bot[ok]).min() < 1e-3:
                    cond = False
                # values next to a zero of the gradient must be exactly representable
                out.append(float(np.nanmean(np.where(np.isnan(q), np.nan, q))))
    return out, cond


# ------------------------------------------------------------------------------ regions
CUBIC = ("cubic", "cube", "square")
BALL = ("spherical", "sphere", "circle")
WHOLE = ("full", "original")


def region_mask(shape, center, radius, rtype):
    """Boolean mask of a region, evaluated voxel by voxel from its definition."""
    g = np.meshgrid(*[np.arange(s) for s in shape], indexing="ij")
    if rtype in WHOLE:
        return np.ones(shape, bool)
    if rtype in CUBIC:
        m = np.ones(shape, bool)
        for x, c in zip(g, center):
            m &= (x >= c - radius) & (x < c + radius)
        return m
    d = sum((x - c) ** 2 for x, c in zip(g, center))
    return d <= radius ** 2


def err_scale(img, n):
    """Absolute error of a mean / deviation of n values in the precision of the image."""
    a = np.asarray(img)
    big = float(np.max(np.abs(a.astype(np.float64)))) if a.size else 1.0
    eps = 1.2e-7 if a.dtype == np.float32 else 2.3e-16
    return (4 * n + 16) * eps * big


def cnr(img, sig, bg):
    """(value, error bound) of (mean(signal)-mean(background))/std(background)."""
    x = np.asarray(img).astype(np.float64)
    s, b = x[sig], x[bg]
    if (b == b[0]).all():
        return 0.0, 0.0
    sd = b.std()
    v = (s.mean() - b.mean()) / sd
    e = err_scale(img, x.size)
    return v, (2 * e + abs(v) * e) / sd + 1e-9 * abs(v) + 1e-12


def ratio(mean_of, std_of, e):
    """(value, error bound) of mean/std of two lists of values, 0 for constant ones."""
    if (std_of == std_of.flat[0]).all():
        return 0.0, 0.0
    sd = std_of.std()
    v = mean_of.mean() / sd
    return v, (e + abs(v) * e) / sd + 1e-9 * abs(v) + 1e-12


def _shifts(a, fill):
    """a and its 2*ndim face neighbours (outside: fill)"""
    out = [a]
    for ax in range(a.ndim):
        for s in (1, -1):
            b = np.full_like(a, fill)
            src = [slice(None)] * a.ndim
            dst = [slice(None)] * a.ndim
            if s == 1:
                src[ax], dst[ax] = slice(None, -1), slice(1, None)
            else:
                src[ax], dst[ax] = slice(1, None), slice(None, -1)
            b[tuple(dst)] = a[tuple(src)]
            out.append(b)
    return out


def dilate(a, n):
    for _ in range(n):
        a = np.logical_or.reduce(_shifts(a, False))
    return a


def erode(a, n):
    for _ in range(n):
        a = np.logical_and.reduce(_shifts(a, False))
    return a


def background_distance(a):
    """Squared Euclidean distance of each foreground voxel to the background (brute force)."""
    if a.size > 5000 and not a.all():
        return separable_distance(a)
    fg, bg = np.argwhere(a), np.argwhere(~a)
    d = np.zeros(a.shape, np.int64)
    if len(fg) and len(bg):
        for lo in range(0, len(fg), 256):
            p = fg[lo:lo + 256]
            q = ((p[:, None, :] - bg[None, :, :]) ** 2).sum(-1).min(1)
            d[tuple(p.T)] = q
    return d


def separable_distance(a):
    """the same, axis by axis: min over the line of (i - j)^2 + what the other axes gave"""
    d = np.where(a, 4 * int(sum(n * n for n in a.shape)), 0).astype(np.int64)
    for ax in range(a.ndim):
        d = np.moveaxis(d, ax, -1)
        n = d.shape[-1]
        out = d.copy()
        for j in range(n):
            np.minimum(out, d[..., j:j + 1] + (np.arange(n) - j) ** 2, out=out)
        d = np.moveaxis(out, -1, ax)
    return d


def largest(binary, iterations):
    """(cleaned image, squared distance map, set of admissible centers, radius)"""
    clean = erode(dilate(np.asarray(binary), iterations), iterations + 1)
    d = background_distance(clean)
    mx = int(d.max())
    centers = [tuple(int(v) for v in p) for p in np.argwhere(d == mx)]
    import math

    return clean, d, centers, math.isqrt(mx)
