"""C11: threshold statistics are those of the sampled pixels; degenerate samples raise an error, nothing is accessed out of bounds."""
import ctypes, itertools, math
import numpy as np

NEEDS_ASAN = True
NEEDS_RANDOM = True
PROPERTY = "C11"
BOUNDS = {"quick": "every single-frame sample of shapes 1x2, 1x3, 2x2, 1x5, 2x3 over 3-6 values (near zero, near and at 65535) in 8 dark/gain configurations, 1, 2 and 5 samples, 3 sigma pairs; every selection of 1-2 sampled frames out of 1-3 blocks of 1-3 frames (the random choices are enumerated); 90 histogram shapes for the fit",
          "thorough": "as quick plus 2x3 over 5-6 values, 3x3 over 3 values, 3 sampled frames and 600 histogram shapes"}
ASSUMPTIONS = ["without a gain the correction is in whole detector units, clamped to 0..65535",
               "the reported maximum is rounded up to a whole unit, the variance is the unbiased one",
               "the fit is judged on samples of Gaussian shape; for other samples it must not be worse than its starting point"]
CASE_TIMEOUT = 240
WIDE = 1000

ALPH = {"lo": [0, 1, 2, 7], "mid": [100, 101, 103, 90], "hi": [65500, 65535, 65534, 65520], "six": [3, 4, 5, 6, 20, 600], "bin": [0, 45, 9]}
CONF = ["none", "dark", "fdark", "bigdark", "negdark", "gain", "both", "infgain"]
SIG = [(4, 10), (0, 0), (2.5, 1)]


def cases(tier):
    out = []
    for w in range(5) if tier != "quick" else (0, 1):
        for cf in ("none", "dark", "gain"):
            out.append(["wide", w, cf])
    for sh in ((1, 2), (1, 3), (2, 2), (1, 5), (2, 3)):
        for al in ALPH:
            k, px = len(ALPH[al]), sh[0] * sh[1]
            if k ** px > (1100 if tier == "quick" else 50000) :
                if al != "bin":
                    continue
            n = k ** px
            for cf in CONF:
                for s in range(0, n, 256):
                    out.append(["single", list(sh), al, cf, s, min(n, s + 256)])
    if tier == "thorough":
        for cf in CONF:
            for s in range(0, 3 ** 9, 1024):
                out.append(["single", [3, 3], "bin", cf, s, min(3 ** 9, s + 1024)])
    for blocks in ([1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [3, 2], [2, 3, 1]):
        for ns in (1, 2) if tier == "quick" else (1, 2, 3):
            for cf in ("none", "dark", "gain", "both"):
                out.append(["select", blocks, ns, cf])
    for mu in (30, 100, 1000) if tier == "quick" else (20, 30, 57, 100, 250, 1000, 20000):
        for sd in (2, 5.5, 9) if tier == "quick" else (1.5, 2, 3, 5.5, 7, 9, 14):
            for tail in (0, 1, 2):
                for cf in ("none", "dark", "gain", "both"):
                    out.append(["fit", mu, sd, tail, cf])
    for b in ("empty", "zero", "negative"):
        out.append(["bad", b])
    return out


def arrays(cf, shape):
    i = np.arange(shape[0] * shape[1]).reshape(shape)
    dark = {"dark": i % 3, "fdark": np.array([0, 0.5, 1.75])[i % 3], "bigdark": np.array([0, 5, 40000, 70000])[i % 4],
            "negdark": np.array([0, -3, -70000.5])[i % 3], "both": np.array([0, 0.5, 3])[i % 3]}.get(cf)
    gain = {"gain": np.array([1, 0.5, 2, 1.25])[i % 4], "both": np.array([1, 0.5, 2, -1])[i % 4],
            "infgain": np.array([1, np.inf, 1e30, np.nan])[i % 4]}.get(cf)
    return (None if dark is None else dark.astype(np.float32)), (None if gain is None else gain.astype(np.float32))


def corrected(frames, dark, gain):
    f = frames.astype(np.float64)
    if gain is None:
        if dark is not None:
            f = np.clip(f - np.trunc(dark.astype(np.float64)), 0, 65535)
        return f
    if dark is not None:
        f = f - dark.astype(np.float64)
    with np.errstate(all="ignore"):
        return f * gain.astype(np.float64)


_lib = None


def set_random(v):
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.mc_continue_random(1)
    _lib.mc_set_random(ctypes.c_uint(v))


def calc(blocks, ns, bg, xr, dark, gain):
    """blocks: list of (n, h, w) uint16 arrays. Returns the result or None if an error was raised."""
    from stempy import _image
    from stempy.io import PyReader
    bl = []
    for b in blocks:
        r = PyReader(b, np.arange(len(b)), (len(b), 1), len(b), len(b))
        bl.append(next(r)._block)
    args = [bl] + ([dark] if dark is not None else []) + [ns, float(bg), float(xr)] + ([gain] if gain is not None else [])
    try:
        return _image.calculate_thresholds(*args)
    except (RuntimeError, ValueError) as e:
        return None


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))


def stats(px):
    n = len(px)
    m = math.fsum(px) / n
    v = math.fsum((x - m) ** 2 for x in px) / (n - 1) if n > 1 else float("nan")
    return m, v, min(px), math.ceil(max(px))


def matches(r, px, ns, bg, xr):
    """None if the reported statistics are those of the pixels px."""
    m, v, lo, hi = stats(px)
    sd = math.sqrt(v)
    for name, got, exp, tol in (("mean", r.mean, m, 1e-6), ("variance", r.variance, v, 1e-6), ("std_dev", r.std_dev, sd, 1e-6),
                                ("min_sample", r.min_sample, lo, 1e-6), ("max_sample", r.max_sample, hi, 1e-6),
                                ("xray_threshold", r.xray_threshold, m + xr * sd, 1e-6), ("number_of_samples", r.number_of_samples, ns, 0),
                                ("background_threshold", r.background_threshold, r.optimized_mean + bg * r.optimized_std_dev, 1e-9),
                                ("xray_threshold_n_sigma", r.xray_threshold_n_sigma, xr, 0),
                                ("background_threshold_n_sigma", r.background_threshold_n_sigma, bg, 0)):
        if not near(got, exp, tol or 1e-12):
            return f"{name} is {got}, expected {exp}"
    if not all(map(math.isfinite, (r.background_threshold, r.optimized_mean, r.optimized_std_dev))) or r.optimized_std_dev < 0:
        return f"fit is mean {r.optimized_mean} std dev {r.optimized_std_dev}"
    return None


def histogram(px, r):
    """Integer bins between the sample limits (and mean -+ x-ray threshold * deviation)."""
    m, v, lo, hi = stats(px)
    sd = math.sqrt(v)
    xr = r.xray_threshold
    a, b = int(max(float(lo), m - xr * sd)), int(min(float(hi), m + xr * sd))
    if b - a != r.number_of_bins:
        return None
    h = np.zeros(b - a)
    for x in px:
        k = int(x - a) if x >= a else -1
        if 0 <= k < len(h):
            h[k] += 1
    return np.arange(a, b, dtype=float), h


def sse(x, h, mu, sd, amp=None):
    with np.errstate(all="ignore"):
        g = np.exp(-(x - mu) ** 2 / (2 * sd * sd))
    if not np.all(np.isfinite(g)):
        return float("inf")
    if amp is None:
        d = float(g @ g)
        amp = float(g @ h) / d if d > 0 else 0.0
    return float(((amp * g - h) ** 2).sum())


def best_fit(x, h, mu, sd):
    """Gauss-Newton refinement of a Gaussian fit from a given point."""
    g = np.exp(-(x - mu) ** 2 / (2 * sd * sd))
    p = np.array([float(g @ h) / float(g @ g), mu, sd])
    lam = 1e-3
    cur = None
    for _ in range(400):
        e = np.exp(-(x - p[1]) ** 2 / (2 * p[2] ** 2))
        r = p[0] * e - h
        J = np.stack([e, p[0] * e * (x - p[1]) / p[2] ** 2, p[0] * e * (x - p[1]) ** 2 / p[2] ** 3], axis=1)
        A = J.T @ J
        step = np.linalg.solve(A + lam * np.diag(np.diag(A) + 1e-12), -J.T @ r)
        q = p + step
        e2 = q[0] * np.exp(-(x - q[1]) ** 2 / (2 * q[2] ** 2)) - h
        if e2 @ e2 <= r @ r:
            p, lam = q, lam / 5
            if np.abs(step).max() < 1e-10:
                break
        else:
            lam *= 5
            if lam > 1e12:
                break
    return p


def run_case(case, ctx):
    kind = case[0]
    if kind == "single":
        _, shape, al, cf, s, e = case
        a = np.array(ALPH[al], dtype=np.uint16)
        dark, gain = arrays(cf, shape)
        px = shape[0] * shape[1]
        set_random(1)
        for i in range(s, e):
            fr = np.array([a[(i // len(a) ** k) % len(a)] for k in range(px)], dtype=np.uint16).reshape((1,) + tuple(shape))
            pix = [float(x) for x in corrected(fr, dark, gain).reshape(-1)]
            if all(map(math.isfinite, pix)) and max(pix) - min(pix) > WIDE:
                continue          # the fit takes seconds: a few of these are cases of their own
            ns = (1, 2, 5)[i % 3]
            for bg, xr in SIG if i % 5 == 0 else SIG[:1]:
                r = calc([fr], ns, bg, xr, dark, gain)
                ctx.step(None if r is None else (r.mean, r.variance, r.number_of_bins))
                if r is None:
                    continue
                what = f"{cf} frame {fr.tolist()} samples {ns}: "
                if not all(map(math.isfinite, pix)):
                    return what + "no error for samples that are not finite"
                m = matches(r, pix * ns, ns, bg, xr)
                if m:
                    return what + m
                if len(set(pix)) == 1:
                    return what + "a result for constant samples"
                hb = histogram(pix * ns, r)
                if hb is not None and hb[1].sum() > 0 and r.optimized_std_dev > 0:
                    x, h = hb
                    mean, v, _, _ = stats(pix * ns)
                    start = sse(x, h, mean, math.sqrt(v), h.max())
                    if sse(x, h, r.optimized_mean, r.optimized_std_dev) > start * (1 + 1e-9) + 1e-9:
                        return what + f"the fit (mean {r.optimized_mean}, std dev {r.optimized_std_dev}) is worse than its starting point"
        return None
    if kind == "wide":
        _, w, cf = case
        vals = ([0, 65535], [0, 65535, 9], [3, 60000, 4, 5, 6], [9, 65535, 9, 9], [65535, 0, 65535, 65535, 65535, 65534])[w]
        fr = np.array([[vals]], dtype=np.uint16)
        dark, gain = arrays(cf, (1, len(vals)))
        set_random(1)
        r = calc([fr], 2, 4, 10, dark, gain)
        ctx.step((w, cf))
        return None if r is None else matches(r, [float(x) for x in corrected(fr, dark, gain).reshape(-1)] * 2, 2, 4, 10)
    if kind == "select":
        _, blocks, ns, cf = case
        shape = (2, 3)
        dark, gain = arrays(cf, shape)
        if gain is not None:
            gain = np.abs(gain)
        frames, k = [], 0
        for n in blocks:
            b = []
            for _ in range(n):
                b.append(np.array([[10 + 2 ** k, 12, 11 + k], [13, 14 + k * k, 9 + k]], dtype=np.uint16))
                k += 1
            frames.append(np.array(b))
        allf = [f for b in frames for f in b]
        table = {}
        for sel in itertools.product(range(len(allf)), repeat=ns):
            px = [float(x) for t in sel for x in corrected(allf[t], dark, gain).reshape(-1)]
            m, v, lo, hi = stats(px)
            table.setdefault((round(m, 6), round(v, 4)), px)
        seen = set()
        for seed in range(1, 41 + 25 * len(table)):
            set_random(seed * 2654435761 & 0xffffffff)
            r = calc(frames, ns, 4, 10, dark, gain)
            if r is None:
                continue
            ctx.step((tuple(blocks), ns, cf, round(r.mean, 6), round(r.variance, 4)))
            key = (round(r.mean, 6), round(r.variance, 4))
            if key not in table:
                return f"{cf} blocks of {blocks} frames, {ns} samples: mean {r.mean} and variance {r.variance} are those of no selection of recorded frames"
            seen.add(key)
            m = matches(r, table[key], ns, 4, 10)
            if m:
                return f"{cf} blocks of {blocks} frames, {ns} samples: {m}"
            if len(seen) == len(table):
                break
        if ns == 1 and len(seen) < len(table):
            for f in allf:      # a frame on which the fit fails is never seen
                r = calc([f[None]], 1, 4, 10, dark, gain)
                if r is not None and (round(r.mean, 6), round(r.variance, 4)) not in seen:
                    return f"{cf} blocks of {blocks} frames: frame {f.tolist()} is not sampled by any of {seed} random choices"
        return None
    if kind == "fit":
        _, mu, sd, tail, cf = case
        shape = (40, 40)
        dark, gain = None, None
        if cf in ("dark", "both"):
            dark = np.full(shape, 8, np.float32)
        if cf in ("gain", "both"):
            gain = np.full(shape, 0.5, np.float32)
        # a sample whose histogram is the rounded Gaussian (deterministic quantiles) plus a tail of electron hits
        n = 1600
        from statistics import NormalDist
        nd = NormalDist(mu, sd)
        vals = [nd.inv_cdf((k + 0.5) / n) for k in range(n)]
        for t in range(tail * 20):
            vals[(t * 37) % n] = mu + sd * (6 + t % 9)
        fr = np.clip(np.round(vals), 0, 65535).astype(np.uint16)
        fr = fr * (2 if gain is not None else 1) + (8 if dark is not None else 0)
        fr = fr.astype(np.uint16).reshape((1,) + shape)
        set_random(1)
        r = calc([fr], 3, 4, 10, dark, gain)
        ctx.step((mu, sd, tail, cf))
        what = f"Gaussian sample mean {mu} deviation {sd} tail {tail} {cf}: "
        if r is None:
            return what + "raised an error"
        px = [float(x) for x in corrected(fr, dark, gain).reshape(-1)] * 3
        m = matches(r, px, 3, 4, 10)
        if m:
            return what + m
        hb = histogram(px, r)
        if hb is None:
            return what + f"{r.number_of_bins} bins"
        p = best_fit(hb[0], hb[1], r.optimized_mean, r.optimized_std_dev)
        if abs(p[1] - r.optimized_mean) > 1e-3 * sd or abs(abs(p[2]) - r.optimized_std_dev) > 1e-3 * sd:
            return what + f"fit is mean {r.optimized_mean} deviation {r.optimized_std_dev}, the least-squares fit is {p[1]}, {p[2]}"
        if abs(r.optimized_mean - mu) > sd or not (sd / 2 < r.optimized_std_dev < 2 * sd):
            return what + f"fit is mean {r.optimized_mean} deviation {r.optimized_std_dev}"
        return None
    fr = np.array([[[1, 5], [9, 40]]], dtype=np.uint16)
    set_random(1)
    for bl, ns in (([], 3), ([fr], 0), ([fr], -1), ([], 0)):
        ctx.step((len(bl), ns))
        r = calc(bl, ns, 4, 10, None, None)
        if r is not None:
            return f"{len(bl)} blocks and {ns} samples gave a result"
    return None
