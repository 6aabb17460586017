"""C13: averages, maxima and histograms of raw blocks: every grouping, order and layout."""
import itertools, os, shutil, tempfile
import numpy as np
from mc.checks.c05 import v1_file, group, compositions, frame, ref_stem, LAYOUTS

NEEDS_ASAN = True
PROPERTY = "C13"
BOUNDS = {"quick": "every order x grouping of 4 frames (version 1 files and PyReader with every block size); all contents of 3 frames of 1x2 over 4 values; 12 layouts and element types of the caller's array; frame shapes up to 4x4 and 6x2; sectors with missing sectors; dark references of 7 kinds; histograms with 0 to 7 bins of every image of 4 positions over 4 values and of larger ones; empty readers",
          "thorough": "as quick with 5 frames, contents over 6 values and images of 5 positions"}
ASSUMPTIONS = ["all frames have the same size", "the element type of the caller's array is converted to 16 bit without loss"]
CASE_TIMEOUT = 120

_dir = None


def scratch():
    global _dir
    if _dir is None or _dir[1] != os.getpid():
        d = tempfile.mkdtemp(prefix="mc13_", dir=BASE)
        _dir = (d, os.getpid())
    return _dir[0]


BASE = None


def setup():
    global BASE
    import atexit
    BASE = tempfile.mkdtemp(prefix="mc13_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(BASE, True))


VALUES = {"quick": [0, 1, 300, 65535], "thorough": [0, 1, 2, 300, 65534, 65535]}
MORE = dict(LAYOUTS)
MORE.update({
    "reversed": lambda a: np.ascontiguousarray(a[::-1])[::-1],
    "mirrored": lambda a: np.ascontiguousarray(a[:, ::-1, ::-1])[:, ::-1, ::-1],
    "transposed": lambda a: np.ascontiguousarray(a.transpose(2, 0, 1)).transpose(1, 2, 0),
    "int64": lambda a: a.astype(np.int64), "uint32": lambda a: a.astype(np.uint32), "float32": lambda a: a.astype(np.float32), "float64": lambda a: a.astype(np.float64),
    "readonly": lambda a: readonly(a), "int64-strided": lambda a: LAYOUTS["strided"](a.astype(np.int64)), "memmap": lambda a: memmap(a), "h5py": lambda a: h5(a, None), "h5py-chunks": lambda a: h5(a, (1, 1, a.shape[2])),
})


def readonly(a):
    b = a.copy()
    b.flags.writeable = False
    return b


def memmap(a):
    p = os.path.join(scratch(), "map")
    a.tofile(p)
    return np.memmap(p, dtype=a.dtype, mode="r", shape=a.shape)


def h5(a, chunks):
    import h5py
    f = h5py.File(os.path.join(scratch(), "a.h5"), "w")
    d = f.create_dataset("frames", data=a, chunks=chunks)
    d.mc_file = f
    return d


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for perm in itertools.permutations(range(n)):
        out.append(["order", list(perm)])
    for lay in MORE:
        out.append(["layout", lay])
    for i in range(len(VALUES[tier])):
        out.append(["content", i, tier])
    for sh in [(h, w) for h in range(1, 5) for w in range(1, 5)] + [(6, 2)]:
        out.append(["shape", list(sh)])
    for missing in range(16):
        out.append(["sector", missing])
    for kind in DARKS:
        out.append(["dark", kind])
    for i in range(len(VALUES[tier])):
        out.append(["histogram", i, tier])
    out += [["histogram-large"], ["empty"], ["bins"]]
    return out


def run_case(case, ctx):
    return globals()["do_" + case[0].replace("-", "_")](ctx, *case[1:])


def functions():
    from stempy.image import calculate_average, maximum_diffraction_pattern
    return calculate_average, maximum_diffraction_pattern


def py(a, numbers=None, block_size=2, scan=(8, 8)):
    from stempy.io import PyReader
    return PyReader(a, list(range(len(a))) if numbers is None else numbers, scan, block_size, len(a))


def v1(blocks):
    from stempy.io import reader
    p = os.path.join(scratch(), "v1.data")
    with open(p, "wb") as f:
        f.write(v1_file(blocks))
    return reader(p)


def check(ctx, what, r, frames):
    """The average and the maximum of what the reader returns, twice"""
    average, maximum = functions()
    frames = np.asarray(frames, dtype=np.uint16)
    mean = frames.astype(np.float64).sum(axis=0) / len(frames)
    top = frames.max(axis=0)
    for again in range(2):
        for name, f, want in (("average", average, mean), ("maximum", maximum, top)):
            got = f(r)
            ctx.step((what, name, got.tobytes()))
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=0):
                return f"{name} of {what}: {got.tolist()}, expected {want.tolist()}"
            r.reset()
    return None


def do_order(ctx, perm):
    for shape in ((1, 3), (3, 2)):
        frames = [frame(k, shape) for k in perm]
        for comp in compositions(len(perm)):
            m = check(ctx, f"frames {perm} of {shape} in blocks of {comp}", v1(group(frames, perm, comp)), frames)
            if m:
                return m
        for bs in range(1, len(perm) + 2):
            m = check(ctx, f"frames {perm} of {shape}, block size {bs}", py(np.array(frames), perm, bs), frames)
            if m:
                return m
    return None


def do_layout(ctx, lay):
    for n, shape in ((1, (2, 2)), (3, (2, 5)), (5, (4, 3))):
        a = np.array([frame(k, shape) for k in range(n)])
        data = MORE[lay](a)
        before = np.array(data)
        for bs in range(1, n + 2):
            m = check(ctx, f"{n} frames of {shape} ({lay}), block size {bs}", py(data, None, bs), a)
            if m:
                return m
        if not np.array_equal(before, np.array(data)):
            return f"the caller's data ({lay}) was changed"
        if hasattr(data, "mc_file"):
            data.mc_file.close()
    return None


def do_content(ctx, i, tier):
    vals = VALUES[tier]
    for rest in itertools.product(vals, repeat=5):
        a = np.array([vals[i], *rest], np.uint16).reshape(3, 1, 2)
        for bs in (1, 2, 3):
            m = check(ctx, f"{a.tolist()}, block size {bs}", py(a, None, bs), a)
            if m:
                return m
    return None


def do_shape(ctx, shape):
    for n in (1, 2, 7):
        a = np.array([frame(k, shape) for k in range(n)])
        m = check(ctx, f"{n} frames of {shape}", py(a), a) or check(ctx, f"{n} frames of {shape} (file)", v1([(a, list(range(n)))]), a)
        if m:
            return m
    return None


def do_sector(ctx, missing):
    """All sectors but some of the second frame"""
    from mc.readers_ref import sector_files, ALL
    from stempy.io import reader
    shape = (576, 576)
    for version in (4, 5):
        fr = []
        for k in range(2):
            px = ((np.arange(576 * 576) * 7919 + 100 * k) % 65536).astype(np.uint16).reshape(shape)
            fr.append((k, k, px, ALL if k == 0 else frozenset(s for s in range(4) if not missing >> s & 1)))
        d = tempfile.mkdtemp(dir=scratch())
        paths = []
        for name, data in sector_files(version, fr, (2, 1)).items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
            paths.append(p)
        from mc.sectors import visible
        frames = [visible(version, px, s) for _, _, px, s in fr if s]
        r = reader(paths, version=version)
        m = check(ctx, f"sectors, version {version}, missing {missing:04b}", r, frames)
        del r
        shutil.rmtree(d)
        if m:
            return m
    return None


def dark_average(r, frames):
    average, _ = functions()
    d = average(r)
    return d, np.array(d)


DARKS = ["average", "changed-in-place", "slice-all", "reversed", "scaled", "array", "integers"]


def do_dark(ctx, kind):
    average, maximum = functions()
    for shape in ((2, 3), (3, 3), (1, 4), (4, 1)):
        a = np.array([frame(k, shape) for k in range(5)])
        for start in (1, 3):
            dark = average(py(a[:start]))
            if kind == "changed-in-place":
                dark[0, 0] = 12345.5
            elif kind == "slice-all":
                dark = dark[:]
            elif kind == "reversed":
                dark = dark[::-1, ::-1]
            elif kind == "scaled":
                dark = dark * 2
            elif kind == "array":
                dark = np.array(dark)
            elif kind == "integers":
                dark = np.array(dark).astype(np.int32)
            value = np.array(dark, dtype=np.float64)
            for r, what in ((py(a[start:]), "array"), (v1([(a[start:], list(range(5 - start)))]), "file")):
                try:
                    got = maximum(r, darkreference=dark)
                except Exception as e:
                    if kind in ("array", "integers"):       # only what calculate_average returned has to be accepted
                        continue
                    return f"dark reference '{kind}': {type(e).__name__} {e}"
                want = a[start:].max(axis=0) - value
                ctx.step((kind, shape, start, got.tobytes()))
                if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-9):
                    return f"maximum with dark reference '{kind}' {value.tolist()}: {got.tolist()}, expected {want.tolist()}"
                if not np.array_equal(value, np.array(dark)):
                    return f"the dark reference '{kind}' was changed"
    # the binding itself
    from stempy import _image
    from stempy.utils import safe_array
    a = np.array([frame(k, (2, 3)) for k in range(4)])
    r, s = py(a[:2]), py(a[2:])
    image = _image.calculate_average(r.begin(), r.end())
    got = np.array(safe_array(_image.maximum_diffraction_pattern(s.begin(), s.end(), image), copy=True))
    if not np.allclose(got, a[2:].max(axis=0) - a[:2].astype(float).mean(axis=0)):
        return f"maximum with an image as dark reference: {got.tolist()}"
    # of another size
    for shape in ((2, 2), (3, 2), (1, 6), (5, 5)):
        dark = average(py(np.array([frame(0, shape)])))
        try:
            got = maximum(py(a), darkreference=dark)
        except Exception:
            ctx.step(("size", shape))
            continue
        return f"a dark reference of {shape} was taken for frames of (2, 3)"
    return None


def histogram(ctx, what, n, image, r, inner, outer, center=(-1, -1), dims=(0, 0)):
    """image: the expected STEM images"""
    from stempy.image import create_stem_histogram
    bins, freqs = create_stem_histogram(n, r, inner, outer, dims, center)
    if len(bins) != len(image) or len(freqs) != len(image):
        return f"{what}: {len(bins)} histograms"
    for b, f, im in zip(bins, freqs, image):
        ctx.step((what, tuple(b), tuple(f)))
        im = [int(v) for v in np.ravel(im)]
        b, f = [float(x) for x in b], [int(x) for x in f]
        lo, hi = min(im), max(im)
        text = f"{what}: {n} bins {b} with {f} of {im}"
        if len(b) != n + 1 or len(f) != n:
            return text
        if not np.allclose(b, np.linspace(lo, hi, n + 1), rtol=1e-12, atol=1e-9) or b[-1] != hi or b[0] != lo:
            return text + f", expected the edges {np.linspace(lo, hi, n + 1).tolist()}"
        if sum(f) != len(im):
            return text + f": {sum(f)} of {len(im)} values were counted"
        want = [sum(1 for v in im if (b[j] <= v < b[j + 1]) or (j == n - 1 and v == b[n])) for j in range(n)]
        if want != f:
            return text + f", expected {want}"
    return None


def do_histogram(ctx, i, tier):
    vals = VALUES[tier]
    positions = 4 if tier == "quick" else 5
    for rest in itertools.product(vals, repeat=positions - 1):
        a = np.array([vals[i], *rest], np.uint16).reshape(positions, 1, 1)
        for n in range(1, 8):
            m = histogram(ctx, "image", n, [a.ravel()], py(a, scan=(positions, 1), block_size=n), [0], [9], (0, 0))
            if m:
                return m
    return None


def do_histogram_large(ctx):
    for n in (1, 2, 3, 7, 10, 49, 100, 333):
        for shape, scan in (((3, 3), (5, 4)), ((4, 2), (1, 30)), ((2, 2), (7, 7))):
            N = scan[0] * scan[1]
            for kind in ("mixed", "equal", "zero", "ramp"):
                a = np.array([frame(k, shape, big=False) if kind == "mixed" else np.full(shape, {"equal": 77, "zero": 0, "ramp": k}[kind], np.uint16) for k in range(N)])
                pairs = [(0, 2), (0, 9), (1, 3)]
                want = ref_stem(a, range(N), scan, pairs)
                for dims in ((0, 0), scan):
                    m = histogram(ctx, f"{kind} {shape} {scan}", n, want, py(a, scan=scan, block_size=4), [p for p, _ in pairs], [p for _, p in pairs], dims=dims)
                    if m:
                        return m
                    r = v1([(a, list(range(N)))])
                    m = histogram(ctx, f"{kind} {shape} {scan} (file)", n, want, r, [p for p, _ in pairs], [p for _, p in pairs], dims=scan)
                    if m:
                        return m
    return None


def do_bins(ctx):
    """No bins: an error"""
    from stempy.image import create_stem_histogram
    a = np.array([frame(k, (2, 2)) for k in range(4)])
    for n in (0, -1, -1000):
        try:
            r = create_stem_histogram(n, py(a, scan=(2, 2)), [0], [3])
        except Exception:
            ctx.step(n)
            continue
        return f"a histogram with {n} bins is {r}"
    return None


def do_empty(ctx):
    """Without frames: nothing or an error"""
    average, maximum = functions()
    empty = np.zeros((0, 2, 2), np.uint16)
    for make in (lambda: py(empty), lambda: v1([])):
        for f in (average, maximum):
            try:
                r = f(make())
            except Exception:
                ctx.step("error")
                continue
            ctx.step("empty")
            if r.size:
                return f"without frames {f.__name__} is {r}"
    return None
