"""C10: electron events are exactly the strict local maxima between the thresholds."""
import itertools
from fractions import Fraction
import numpy as np

NEEDS_ASAN = True
PROPERTY = "C10"
BOUNDS = {"quick": "every frame of shapes 1x2..1x5, 2x1..4x1, 2x2, 2x3, 3x2 over 4 values, 3x3 over 4 values, 2x4, 4x2, 3x4, 4x3 over 2-3 values and 4x4 over 2 values; 7 dark/gain/threshold configurations, 3 threshold pairs incl. values equal to a threshold; row dark (mean, median) on every frame of 5 shapes over 3-4 values; every grouping of 6 frames into blocks with all 720 image numberings; structured frames up to 576x576 and 3x70000",
          "thorough": "as quick plus 3x4, 4x3 over 3 values and 4x4 over 2 values in every configuration, 4x4 over 3 values in one, and row dark on every 3x3, 2x4 and 4x2 frame over 4 values"}
ASSUMPTIONS = ["background threshold >= 0 and frames of at least two pixels",
               "gains, darks and scalings are chosen exactly representable, or pixels whose rounding is ambiguous are skipped",
               "without a gain the correction is done in whole detector units: rounding the dark reference or the difference are both accepted"]
CASE_TIMEOUT = 240

CHUNK = 1 << 14
ALPH = {"a": [1, 3, 5, 9], "b": [2, 3, 5, 8], "c": [0, 3, 4, 9], "d": [0, 3, 8], "e": [2, 5, 9], "f": [1, 4], "g": [4, 5], "h": [6, 3, 12, 65535]}
# name: (dark kind, gain kind, bg, xray)
CONF = {"none": (None, None, 2.0, 8.0), "dark": ("int", None, 2.0, 8.0), "fdark": ("frac", None, 1.5, 7.5),
        "gain": (None, "g", 2.0, 8.0), "both": ("frac", "g", 1.25, 6.5), "bigdark": ("big", None, 0.0, 70000.0),
        "open": (None, None, 0.0, 1e9)}


def ndigits(shape, alph):
    return len(ALPH[alph]) ** (shape[0] * shape[1])


def cases(tier):
    out = []

    def space(shape, alph, conf, row=None):
        n = ndigits(shape, alph)
        for s in range(0, n, CHUNK):
            out.append(["frames", list(shape), alph, conf, row, s, min(n, s + CHUNK)])

    small = [(1, 2), (1, 3), (1, 4), (1, 5), (2, 1), (3, 1), (4, 1), (2, 2), (2, 3), (3, 2)]
    for sh in small:
        for al in "abch":
            for cf in CONF:
                space(sh, al, cf)
    for al in "de":
        for cf in CONF:
            space((3, 3), al, cf)
            if cf in ("none", "both"):
                space((2, 4), al, cf)
                space((4, 2), al, cf)
    space((3, 3), "b", "none")
    for sh in ((3, 4), (4, 3)):
        for cf in ("none", "dark", "both"):
            space(sh, "g", cf)
            space(sh, "f", cf)
    for sh in ((2, 4), (4, 2), (1, 5), (2, 2), (2, 3), (3, 2), (3, 3)):
        al = "b" if sh[0] * sh[1] <= 6 else "e"
        for cf in ("none", "dark", "gain", "both"):
            for row in ("mean", "median"):
                space(sh, al, cf, row)
                if sh in ((2, 4), (4, 2)):
                    space(sh, "d", cf, row)
                if sh == (2, 4) and cf == "none":
                    for sh2 in ((1, 6), (2, 6), (1, 7), (1, 8)):
                        if sh2[0] * sh2[1] <= 8:
                            space(sh2, "d", "open", row)
    for m in range(2, 8):
        for cf in ("open", "none", "dark", "gain"):
            for row in ("mean", "median"):
                out.append(["perm", m, cf, row])
    for cf in CONF:
        space((3, 3), "b", cf)
        space((3, 3), "a", cf)
    space((3, 4), "d", "none")
    space((4, 3), "e", "both")
    space((4, 4), "g", "none")
    if tier == "thorough":
        for cf in CONF:
            space((3, 4), "d", cf)
            space((4, 3), "e", cf)
            space((4, 4), "f", cf)
        for al in "abch":
            for row in ("mean", "median"):
                for cf in ("none", "dark", "gain", "both"):
                    space((3, 3), al, cf, row)
                    space((2, 4), al, cf, row)
                    space((4, 2), al, cf, row)
        space((4, 4), "e", "both")
    for bs in range(1, 7):
        out.append(["numbering", bs])
    for sh in ((576, 576), (300, 301), (3, 70000), (70000, 2), (256, 256), (257, 128), (1, 66000)):
        for cf in ("none", "dark", "both"):
            for row in (None, "mean", "median"):
                if row and sh[0] * sh[1] > 340000:
                    continue
                out.append(["big", list(sh), cf, row])
    for k in ("list", "fortran", "strided", "int64", "kernel"):
        out.append(["api", k])
    return out


def dark_of(kind, shape):
    if kind is None:
        return None
    i = np.arange(shape[0] * shape[1]).reshape(shape)
    if kind == "int":
        return (i % 3).astype(np.float32)
    if kind == "frac":
        return (np.array([0, 0.5, 1.25, 2.75])[i % 4]).astype(np.float32)
    return (np.array([0, 4, 100])[i % 3]).astype(np.float32)


def gain_of(kind, shape):
    if kind is None:
        return None
    i = np.arange(shape[0] * shape[1]).reshape(shape)
    return np.array([1, 2, 0.5, 1.25, 0.75])[i % 5].astype(np.float32)


def half_rows(w):
    return [(0, w // 2), (w // 2, w)]


def correct(frames, dark, gain, bg, xray, row, opt):
    """List of admissible corrected stacks (float64), and the mask of frames whose rounding is not decided."""
    f = frames.astype(np.float64)
    skip = np.zeros(len(f), bool)
    d = np.zeros(f.shape[1:]) if dark is None else dark.astype(np.float64)
    variants = [f - d] if gain is not None or dark is None else [np.trunc(f - d), f - np.trunc(d)]
    if gain is None:
        variants = [np.clip(v, 0, 65535) for v in variants]
    out = []
    for v in variants:
        if row:
            v = v.copy()
            for a, b in half_rows(f.shape[2]):
                if a == b:
                    continue
                part = f[:, :, a:b]
                st = part.mean(axis=2) if row == "mean" else np.median(part, axis=2)
                with np.errstate(divide="ignore", invalid="ignore"):
                    sc = np.where(st == 0, 0, opt / np.where(st == 0, 1, st))
                v[:, :, a:b] *= sc[:, :, None]
            if gain is None:
                near = np.abs(v - np.round(v))
                # a value that is (almost) a whole number may be rounded either way unless the scale is a power of two
                amb = (near < 1e-3) & (v > 0.5)
                for a, b in half_rows(f.shape[2]):
                    if a == b:
                        continue
                    part = f[:, :, a:b]
                    st = part.mean(axis=2) if row == "mean" else np.median(part, axis=2)
                    m, _ = np.frexp(st)
                    pow2 = (m == 0.5) | (st == 0)
                    amb[:, :, a:b] &= ~pow2[:, :, None]
                skip |= amb.any(axis=(1, 2))
                v = np.clip(np.trunc(v), 0, 65535)
        if gain is not None:
            v = v * gain.astype(np.float64)
        close = (np.abs(v - bg) < 1e-4) | (np.abs(v - xray) < 1e-4)
        if row and gain is not None:
            for a, b in half_rows(f.shape[2]):
                if a < b:
                    st = (f[:, :, a:b].mean(axis=2) if row == "mean" else np.median(f[:, :, a:b], axis=2))
                    m, _ = np.frexp(st)
                    close[:, :, a:b] &= ~((m == 0.5) | (st == 0))[:, :, None]
            skip |= close.any(axis=(1, 2))
        v = np.where((v <= bg) | (v >= xray), 0, v)
        out.append(v)
    return out, skip


def neighbour_max(v):
    n, h, w = v.shape
    p = np.full((n, h + 2, w + 2), -np.inf)
    p[:, 1:-1, 1:-1] = v
    m = np.full(v.shape, -np.inf)
    for dy in (0, 1, 2):
        for dx in (0, 1, 2):
            if (dy, dx) != (1, 1):
                np.maximum(m, p[:, dy:dy + h, dx:dx + w], out=m)
    return m


def ref_events(frames, dark, gain, bg, xray, row=None, opt=0.0):
    """(list of boolean event stacks, skip mask)."""
    vs, skip = correct(frames, dark, gain, bg, xray, row, opt)
    res = []
    for v in vs:
        m = neighbour_max(v)
        res.append((v > 0) & (v > m))
        if row and gain is not None:
            # neighbours that are equal up to rounding are not judged
            finite = np.isfinite(m)
            with np.errstate(invalid="ignore"):
                    near = (finite & (v > 0) & (np.abs(v - m) < 1e-4 * np.maximum(1, np.abs(v)))).any(axis=(1, 2))
            exact = np.ones(len(v), bool)
            for a, b in half_rows(v.shape[2]):
                if a < b:
                    part = frames[:, :, a:b].astype(np.float64)
                    st = part.mean(axis=2) if row == "mean" else np.median(part, axis=2)
                    exact &= ((np.frexp(st)[0] == 0.5) | (st == 0)).all(axis=1)
            skip = skip | (near & ~exact)
    return res, skip


def count(frames, dark, gain, bg, xray, row=None, opt=0.0, numbers=None, block=64, scan=None):
    from stempy import _image
    from stempy.io import PyReader
    n = len(frames)
    numbers = np.arange(n) if numbers is None else numbers
    scan = scan or (n, 1)
    reader = PyReader(frames, numbers, scan, block, n)
    o = _image.ElectronCountOptionsClassic()
    o.background_threshold, o.x_ray_threshold = bg, xray
    if dark is not None:
        o.dark_reference = dark
    if gain is not None:
        o.gain = gain
    o.scan_dimensions = scan
    if row:
        o.apply_row_dark_subtraction = True
        o.apply_row_dark_use_mean = row == "mean"
        o.optimized_mean = opt
    return _image.electron_count(reader.begin(), reader.end(), o)


def compare(data, frames, variants, skip, numbers=None, what=""):
    n, h, w = frames.shape
    if len(data) != n:
        return f"{what}: {len(data)} positions for {n} frames"
    flat = [v.reshape(n, -1) for v in variants]
    for k in range(n):
        pos = k if numbers is None else numbers[k]
        if len(data[pos]) != 1:
            return f"{what}: position {pos} has {len(data[pos])} frames"
        if skip[k]:
            continue
        got = np.asarray(data[pos][0])
        if not any(np.array_equal(got, np.flatnonzero(f[k])) for f in flat):
            return (f"{what}: frame {frames[k].tolist() if h * w < 40 else 'big'} gives events {got.tolist()[:30]}, "
                    f"expected {np.flatnonzero(flat[0][k]).tolist()[:30]}")
    return None


def enum_frames(shape, alph, s, e):
    a = np.array(ALPH[alph], dtype=np.uint16)
    k, px = len(a), shape[0] * shape[1]
    idx = np.arange(s, e, dtype=np.int64)
    fr = np.empty((len(idx), px), dtype=np.uint16)
    for p in range(px):
        fr[:, p] = a[idx % k]
        idx //= k
    return fr.reshape((-1,) + tuple(shape))


def run_case(case, ctx):
    kind = case[0]
    if kind == "frames":
        _, shape, alph, cf, row, s, e = case
        frames = enum_frames(shape, alph, s, e)
        dk, gk, bg, xr = CONF[cf]
        dark, gain = dark_of(dk, shape), gain_of(gk, shape)
        opt = 4.0
        ev, skip = ref_events(frames, dark, gain, bg, xr, row, opt)
        res = count(frames, dark, gain, bg, xr, row, opt)
        if tuple(res.frame_dimensions) != (shape[1], shape[0]) or tuple(res.scan_dimensions) != (len(frames), 1):
            return f"dimensions {res.scan_dimensions} {res.frame_dimensions}"
        ctx.transitions += len(frames)
        ctx.states.update(hash(v.tobytes()).to_bytes(8, "little", signed=True) for v in ev[0])
        return compare(res.data, frames, ev, skip, None, f"{cf} row={row} bg={bg} xray={xr}")
    if kind == "numbering":
        bs = case[1]
        base = enum_frames((2, 3), "c", 0, 4096)[[5, 77, 900, 1300, 2222, 4001]]
        ev, skip = ref_events(base, None, None, 2.0, 8.0)
        for perm in itertools.permutations(range(6)):
            for scan in ((6, 1), (2, 3)) if perm[0] == 0 else ((3, 2),):
                res = count(base, None, None, 2.0, 8.0, numbers=np.array(perm), block=bs, scan=scan)
                ctx.step((perm, bs, scan))
                if tuple(res.scan_dimensions) != scan:
                    return f"scan dimensions {res.scan_dimensions}, expected {scan}"
                m = compare(res.data, base, ev, skip, perm, f"image numbers {perm} in blocks of {bs}")
                if m:
                    return m
        # image numbers may leave gaps: the other positions have one empty frame
        for perm in itertools.permutations(range(8), 6):
            if perm[0] > 1:
                continue
            res = count(base, None, None, 2.0, 8.0, numbers=np.array(perm), block=bs, scan=(4, 2))
            ctx.step((perm, bs))
            for p in range(8):
                got = np.asarray(res.data[p][0]).tolist()
                exp = np.flatnonzero(ev[0][perm.index(p)]).tolist() if p in perm else []
                if got != exp:
                    return f"image numbers {perm}: position {p} has {got}, expected {exp}"
        return None
    if kind == "big":
        _, shape, cf, row = case
        rng = np.random.RandomState(7)     # structured content; any content will do, the whole frame is compared
        px = shape[0] * shape[1]
        frames = np.array([ALPH["a"][k % 4] for k in range(4)], dtype=np.uint16)[rng.randint(0, 4, (2, px))].reshape((2,) + tuple(shape))
        frames[1] = 1
        frames[1].reshape(-1)[::7] = 5
        frames[1].reshape(-1)[-1] = 6
        dk, gk, bg, xr = CONF[cf]
        dark, gain = dark_of(dk, shape), gain_of(gk, shape)
        if row:
            # half rows with a power of two as mean and median
            frames[:] = 4
            frames[:, ::2, 1::3] = 4
            frames[1] = np.where(np.indices(shape).sum(axis=0) % 2 == 0, 4, 4)
            frames[0, :, 0] = 4
            if shape[1] >= 4:
                frames[:, :, 0], frames[:, :, 1] = 6, 2
                frames[:, 1::2, -1], frames[:, 1::2, -2] = 7, 1
        ev, skip = ref_events(frames, dark, gain, bg, xr, row, 4.0)
        res = count(frames, dark, gain, bg, xr, row, 4.0, block=2)
        ctx.step((tuple(shape), cf, row))
        return compare(res.data, frames, ev, skip, None, f"{shape} {cf} row={row}")
    if kind == "perm":
        return permutations(*case[1:], ctx)
    return api(case[1], ctx)


# values whose sum is 64 times their number and whose median is 64
PERM = {2: [60, 68], 3: [40, 64, 88], 4: [20, 60, 68, 108], 5: [30, 50, 64, 72, 104], 6: [10, 40, 60, 68, 80, 126],
        7: [5, 25, 55, 64, 70, 99, 130]}


def permutations(m, cf, row, ctx):
    """Every order of m different values in a half row, mean and median 64: scaled by exactly 1 or 2."""
    vals = np.array(PERM[m], dtype=np.uint16)
    assert vals.sum() == 64 * m and np.median(vals) == 64
    left = np.array(list(itertools.permutations(vals.tolist())), dtype=np.uint16)
    rows = np.concatenate([left, np.roll(left, 1, axis=0)[:, ::-1]], axis=1)     # the right half: another order
    dk, gk, bg, xr = CONF[cf]
    if cf != "open":
        bg, xr = 35.0, 190.0
    for height in (1, 2, 3):
        frames = rows[:len(rows) // height * height].reshape(-1, height, 2 * m) if len(rows) >= height else rows[None, :1]
        dark, gain = dark_of(dk, frames.shape[1:]), gain_of(gk, frames.shape[1:])
        for opt in (64.0, 128.0):
            ev, skip = ref_events(frames, dark, gain, bg, xr, row, opt)
            if skip.any():
                return "case is not decided by the reference"
            res = count(frames, dark, gain, bg, xr, row, opt)
            ctx.transitions += len(frames)
            ctx.states.update(hash(v.tobytes()).to_bytes(8, "little", signed=True) for v in ev[0])
            bad = compare(res.data, frames, ev, skip, None, f"permutations {cf} row={row} opt={opt}")
            if bad:
                return bad
    return None


def api(kind, ctx):
    """The Python entry point: thresholds from a one-frame block, then events for every memory layout of dark and gain."""
    import warnings
    from stempy import _image
    from stempy.io import PyReader
    from stempy.image import electron_count
    shape = (4, 6)
    rng = np.random.RandomState(3)
    frames = (8 + rng.randint(0, 12, (6,) + shape)).astype(np.uint16)
    frames[1, 1, 1] = 60
    frames[2, 0, 5] = 44
    frames[4, 3, 0] = 39
    frames[5] += 1
    for dk in (None, "int", "frac", "big"):
        for gk in (None, "g"):
            for row in (None, "mean", "median"):
                if row and dk == "big":
                    continue
                dark, gain = dark_of(dk, shape), gain_of(gk, shape)
                if dk == "big":
                    dark = dark / 25          # 0, 0.16, 4
                    dark = np.round(dark * 4) / 4
                    dark = dark.astype(np.float32)
                inv = None if gain is None else np.array([1, 2, 0.5, 4, 0.25])[np.arange(24).reshape(shape) % 5]
                gain = None if inv is None else (1 / inv).astype(np.float32)
                def lay(a):
                    if a is None:
                        return None
                    if kind == "fortran":
                        return np.asfortranarray(a)
                    if kind == "strided":
                        b = np.zeros((shape[0], shape[1] * 2), a.dtype)
                        b[:, ::2] = a
                        return b[:, ::2]
                    if kind == "int64" and np.all(a == np.round(a)):
                        return a.astype(np.int64)
                    if kind == "int64":
                        return a.astype(np.float64)
                    return a
                data = frames if kind != "kernel" else frames.astype(np.int32)
                for bs in (1, 2, 4):
                    reader = PyReader(data, list(range(6)) if kind == "list" else np.arange(6), (3, 2), bs, 6)
                    blk = [PyReader(frames[:bs], np.arange(bs), (3, 2), bs, bs)]
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        # identical sample frames make the thresholds independent of the random choice
                        same = np.concatenate([frames[:1]] * bs + [frames[bs:]])
                        reader = PyReader(same.astype(data.dtype), list(range(6)) if kind == "list" else np.arange(6), (3, 2), bs, 6)
                        first = next(PyReader(same, np.arange(6), (3, 2), bs, 6))
                        args = [[first._block]] + ([dark] if dark is not None else []) + [5, 2.0, 6.0] + ([gain] if gain is not None else [])
                        try:
                            th = _image.calculate_thresholds(*args)
                        except RuntimeError:
                            continue
                        arr = electron_count(reader, darkreference=lay(dark), number_of_samples=5, background_threshold_n_sigma=2,
                                             xray_threshold_n_sigma=6, gain=None if inv is None else lay(inv),
                                             scan_dimensions=(3, 2), apply_row_dark=bool(row), apply_row_dark_use_mean=row == "mean")
                    ctx.step((kind, dk, gk, row, bs))
                    if tuple(arr.scan_shape) != (2, 3) or tuple(arr.frame_shape) != shape:
                        return f"shapes {arr.scan_shape} {arr.frame_shape}"
                    if th.background_threshold < 0:
                        continue
                    ev, skip = ref_events(same, dark, gain, th.background_threshold, th.xray_threshold, row, np.float32(th.optimized_mean))
                    m = compare(arr.data, same, ev, skip, None, f"electron_count {kind} dark={dk} gain={gk} row={row} block={bs}")
                    if m:
                        return m
    return None
