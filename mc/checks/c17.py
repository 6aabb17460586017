"""C17: centre of mass of dense frames, repair of bad sectors and phase integration, against their definitions."""
import itertools, warnings
from fractions import Fraction
import numpy as np

NEEDS_PLAIN = True
PROPERTY = "C17"
BOUNDS = {"quick": "com_dense: every frame of 1x1..1x4, 2x1..4x1, 2x2, 2x3, 3x2 over 3-4 values, stacks of every pair of 2x2 frames over 3 values, 8 types and layouts, and the sparse centre of mass of the same counts; "
                   "filter_bad_sectors: every assignment of below / inside / above / on a cut-off to the positions of scans up to 3x3 and 1x6 (3 classes for 3x3), every single and pair of bad positions of 5x5 and 4x6; "
                   "phase_from_com: every content of 1x2, 2x1, 2x2, 1x3 over 3 values and unit impulses in every place of shapes up to 5x6, 5 angles, flipped or not, 3 regularisations, against explicit Fourier sums",
          "thorough": "as quick with frames over 5 values, 4 classes of 3x3 and triples of bad positions"}
ASSUMPTIONS = ["for bad positions next to each other both repairs are accepted: from the good neighbours only, or in the order of the positions with those that were repaired before",
               "the sum of a dense frame is not zero"]
CASE_TIMEOUT = 240


def cases(tier):
    out = []
    values = [0, 1, 3, 10] if tier == "quick" else [0, 1, 2, 3, 10]
    for sh in [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (3, 1), (4, 1), (2, 2), (2, 3), (3, 2)]:
        v = values if sh[0] * sh[1] < 6 else values[1:]
        out.append(["dense", list(sh), v])
    out += [["pair", k] for k in range(3)] + [["types"]] + [["sparse", list(s)] for s in ((2, 3), (3, 2), (1, 4))]
    for sh in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 6), (6, 1)]:
        out.append(["bad", list(sh), 4, 0, 1])
    n = 3 if tier == "quick" else 4
    for part in range(16):
        out.append(["bad", [3, 3], n, part, 16])
    for sh in [(5, 5), (4, 6)]:
        for k in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append(["places", list(sh), k])
    for sh in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]:
        out.append(["phase", list(sh)])
    for sh in itertools.product(range(1, 6), range(1, 7)):
        out.append(["impulse", list(sh)])
    return out


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return globals()["do_" + case[0]](ctx, *case[1:])


# ---------------------------------------------------------------- dense centre of mass
def com_ref(frame):
    total = sum(int(v) for v in frame.ravel())
    h, w = frame.shape
    x = sum(Fraction(int(frame[i, j])) * j for i in range(h) for j in range(w)) / total
    y = sum(Fraction(int(frame[i, j])) * i for i in range(h) for j in range(w)) / total
    return float(x), float(y)


def same(a, b, tol=1e-9):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def check_dense(ctx, frames, want=None, what=""):
    from stempy.image import com_dense
    before = np.array(frames)
    got = com_dense(frames)
    stack = before if before.ndim == 3 else before[None]
    want = np.array([com_ref(f) for f in stack]).T
    ctx.step((what, stack.shape, got.tobytes()))
    if not same(got, want):
        return f"com_dense of {before.tolist()} {what} is {got.tolist()}, expected {want.tolist()}"
    if not np.array_equal(np.array(frames), before):
        return f"com_dense has modified {before.tolist()}"
    return None


def do_dense(ctx, shape, values):
    n = shape[0] * shape[1]
    stack = []
    for v in itertools.product(values, repeat=n):
        if not any(v):
            continue
        f = np.array(v, dtype=np.int64).reshape(shape)
        stack.append(f)
        m = check_dense(ctx, f)
        if m:
            return m
    return check_dense(ctx, np.array(stack))


def do_pair(ctx, k):
    vals = (0, 2, 5)
    frames = [np.array(v).reshape(2, 2) for v in itertools.product(vals, repeat=4) if any(v)]
    for a in frames[k::3]:
        for b in frames:
            m = check_dense(ctx, np.array([a, b]))
            if m:
                return m
    return None


def do_types(ctx):
    base = np.random.RandomState(3).randint(0, 200, (3, 4, 6))
    for t in (np.uint8, np.uint16, np.int32, np.uint32, np.uint64, np.float32, np.float64):
        b = base.astype(t)
        for what, a in (("c", b), ("fortran", np.asfortranarray(b)), ("strided", np.repeat(b, 2, axis=2)[:, :, ::2]), ("reversed", np.ascontiguousarray(b[::-1])[::-1]), ("two", b[0])):
            m = check_dense(ctx, a, what=f"{t.__name__} {what}")
            if m:
                return m
    big = np.full((1, 300, 400), 65535, dtype=np.uint16)
    return check_dense(ctx, big[:, ::30, ::30], what="large values") or check_dense(ctx, np.full((1, 70, 60), 255, dtype=np.uint8), what="sums that need more than 16 bits")


def do_sparse(ctx, fs):
    """The same counts as events"""
    from stempy.image import com_dense, com_sparse
    from stempy.io import SparseArray
    n = fs[0] * fs[1]
    sets = [[p for p in range(n) if m >> p & 1] for m in range(1, 1 << n)]
    data = np.empty((len(sets), 1), dtype=object)
    dense = np.zeros((len(sets), n))
    for i, s in enumerate(sets):
        data[i, 0] = np.array(s, dtype=np.uint32)
        dense[i, s] = 1
    a = com_dense(dense.reshape(-1, *fs))
    for v in (0, 1):
        sa = SparseArray(data=data.copy(), scan_shape=(len(sets), 1), frame_shape=tuple(fs))
        b = com_sparse(sa, version=v)[:, :, 0]
        ctx.step((tuple(fs), v))
        if not same(a, b, 1e-5):
            return f"com_dense {a.tolist()[:20]} and com_sparse {b.tolist()[:20]} of the same counts differ"
    return None


# ---------------------------------------------------------------- bad sectors
CUT = (10.0, 20.0)
CLASS = [15.0, 5.0, 25.0, 10.0]       # inside, below, above, exactly on a cut-off (still good)


def repair(com, bad, sequential):
    out = com.copy()
    out[:, bad] = np.nan
    src = out if sequential else out.copy()
    h, w = bad.shape
    for i in range(h):
        for j in range(w):
            if bad[i, j]:
                for c in (0, 1):
                    near = [src[c, a, b] for a in range(max(0, i - 1), min(h, i + 2)) for b in range(max(0, j - 1), min(w, j + 2)) if not np.isnan(src[c, a, b])]
                    out[c, i, j] = np.median(near) if near else np.nan
    return out


def check_bad(ctx, com):
    from stempy.image import filter_bad_sectors
    bad = (com[1] > CUT[1]) | (com[1] < CUT[0])
    for cut in (CUT, list(CUT)):
        arg = com.copy()
        got = filter_bad_sectors(arg, cut)
        ctx.step(com.tobytes())
        if not any(same(got, repair(com, bad, s), 1e-6) for s in (True, False)):
            return f"filter_bad_sectors of {com.tolist()} with {cut}: {np.asarray(got).tolist()}, expected {repair(com, bad, True).tolist()}"
    return None


def do_bad(ctx, shape, classes, part, parts):
    n = shape[0] * shape[1]
    for k, v in enumerate(itertools.product(range(classes), repeat=n)):
        if k % parts != part:
            continue
        com = np.empty((2,) + tuple(shape))
        com[1] = np.array([CLASS[c] + (0.5 * i if c == 0 else -0.25 * i if c == 1 else i if c == 2 else 0) for i, c in enumerate(v)]).reshape(shape)
        com[0] = (np.arange(n) * 3 % 7 + 100.0).reshape(shape)
        m = check_bad(ctx, com)
        if m:
            return m
    return None


def do_places(ctx, shape, k):
    n = shape[0] * shape[1]
    base = np.random.RandomState(5).uniform(11, 19, (2,) + tuple(shape))
    for places in itertools.combinations(range(n), k):
        for v in (5.0, 25.0):
            com = base.copy()
            for p in places:
                com[1].ravel()[p] = v
            for t in (np.float64, np.float32):
                m = check_bad(ctx, com.astype(t))
                if m:
                    return m
    return None


# ---------------------------------------------------------------- phase
def phase_ref(com, theta, flip, reg):
    a, b = com.astype(np.float64)
    h, w = a.shape
    if flip:
        a, b = a * np.cos(theta) + b * np.sin(theta), a * np.sin(theta) - b * np.cos(theta)
    else:
        a, b = a * np.cos(theta) - b * np.sin(theta), a * np.sin(theta) + b * np.cos(theta)

    def freq(n):
        return np.array([(k if k < (n + 1) // 2 else k - n) / n for k in range(n)])

    def dft(n, sign):
        return np.exp(sign * 2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)

    fy, fx = freq(h)[:, None], freq(w)[None, :]
    num = fy * (dft(h, -1) @ a @ dft(w, -1)) + fx * (dft(h, -1) @ b @ dft(w, -1))
    den = 2j * np.pi * (fx ** 2 + fy ** 2) + reg
    num[0, 0], den[0, 0] = 0, 1
    return (dft(h, 1) @ (num / den) @ dft(w, 1)).real / (h * w)


def check_phase(ctx, com, theta, flip, reg):
    from stempy.image import phase_from_com
    arg = com.copy()
    got = phase_from_com(arg, theta=theta, flip=flip, reg=reg)
    ctx.step((theta, flip, reg, com.tobytes()))
    want = phase_ref(com, theta, flip, reg)
    if np.iscomplexobj(got) or not same(got, want, 1e-7):
        return f"phase_from_com of {com.tolist()}, theta={theta} flip={flip} reg={reg}: {got.tolist()}, expected {want.tolist()}"
    if not np.array_equal(arg, com):
        return f"phase_from_com has modified {com.tolist()}"
    return None


ANGLES = (0, np.pi / 2, np.pi, -0.3, 1.1)


def do_phase(ctx, shape):
    n = shape[0] * shape[1]
    vals = (-1.0, 0.0, 2.5) if n < 4 else (-1.0, 2.5)
    for v in itertools.product(vals, repeat=2 * n):
        com = np.array(v).reshape((2,) + tuple(shape))
        for theta in ANGLES:
            for flip in (False, True):
                for reg in (1e-10, 1e-3, 0.5):
                    m = check_phase(ctx, com, theta, flip, reg)
                    if m:
                        return m
    return None


def do_impulse(ctx, shape):
    from stempy.image import phase_from_com
    n = shape[0] * shape[1]
    for p in range(2 * n):
        com = np.zeros((2,) + tuple(shape))
        com.ravel()[p] = 1
        for theta in ANGLES:
            for flip in (False, True):
                for reg in (1e-10, 0.5):
                    m = check_phase(ctx, com, theta, flip, reg)
                    if m:
                        return m
    rng = np.random.RandomState(2)
    com = rng.normal(size=(2,) + tuple(shape)).astype(np.float32)
    if not same(phase_from_com(com.astype(np.float64)), phase_ref(com, 0, False, 1e-10), 1e-7):
        return f"phase_from_com of {shape} with the defaults is wrong"
    return None
