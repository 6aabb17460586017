"""C16: reading and counting from Python: every backend with every combination of options, every index of read_frames."""
import itertools, os, shutil, tempfile, warnings
import numpy as np
from mc.checks import c10, c07
from mc.checks.c05 import v1_file
from mc.sectors import *
from mc.sectors import _NOISE

NEEDS_ASAN = True
NEEDS_SMALL = True
PROPERTY = "C16"
BOUNDS = {"quick": "counting: 21 backends (PyReader with 4 block sizes, HDF5 files with and without positions, version 1 and 3 files, sectors of version 4 and 5 read sequentially, with the threaded reader and the multi-pass reader with 1, 2 and 5 threads) x 4 dark references x 3 gains x row dark (off, mean, median) x 1, 2 or all blocks for the thresholds x scan size given or not, 3 recordings with several frames at a position and missing sectors for the threaded ones; 8 types and layouts of dark reference and gain; every number of blocks read before counting; "
                   "read_frames: 4 recordings, every position in 6 forms and positions outside, every integer, every slice with start, stop and step from {None, -4..4}, every list of up to 2 indices, every mask; "
                   "reader(): every version x backend x one file, list or tuple of files",
          "thorough": "as quick with every combination of options for every recording, and lists of up to 3 indices"}
ASSUMPTIONS = ["dark reference and gain have the size of the frames", "every frame has the same values in another order, so that the thresholds do not depend on the sampled frames (C11 judges the thresholds themselves)",
               "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE)", "readers that are not threaded count one frame for each position"]
CASE_TIMEOUT = 200
BASE = None
_dir = None


def setup():
    global BASE
    import atexit
    BASE = tempfile.mkdtemp(prefix="mc16_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(BASE, True))


def scratch():
    global _dir
    if _dir is None or _dir[1] != os.getpid():
        _dir = (tempfile.mkdtemp(dir=BASE), os.getpid())
    for f in os.listdir(_dir[0]):
        os.unlink(os.path.join(_dir[0], f))
    return _dir[0]


# ------------------------------------------------------------------ recordings
# near the background threshold and X rays, so that options that change a frame change its events
EVENTS = [106, 108, 110, 112, 115, 120, 140, 180, 240, 320, 420]
STEPS = [7, 11, 13, 17, 19, 23, 29, 31]


def base_frame(k, shape):
    """The same values for every k, in another order"""
    n = shape[0] * shape[1]
    v = np.concatenate([np.resize(_NOISE, n - len(EVENTS)), EVENTS])
    step = next(s for s in STEPS[k % 8:] + STEPS if np.gcd(s, n) == 1)
    return v[(np.arange(n) * step + 5 * k) % n].reshape(shape)


def dark_ref(kind, shape):
    if kind is None:
        return None
    i = np.arange(shape[0] * shape[1]).reshape(shape)
    return {"zero": i * 0, "low": i % 5, "high": (i * 37) % 211}[kind].astype(np.float32)


def gain_ref(kind, shape):
    if kind is None:
        return None
    i = np.arange(shape[0] * shape[1]).reshape(shape)
    return {"one": i * 0 + 1, "pattern": np.array([1, 4, 2])[i % 3]}[kind].astype(np.float32)


def raw(k, shape, dark, gain):
    v = base_frame(k, shape)
    if gain is not None:
        v = v * gain
    if dark is not None:
        v = v + dark
    assert (v == np.round(v)).all()
    return v.astype(np.uint16)


# (position, frame number, sectors)
FULL = [(p, p, ALL) for p in (4, 0, 3, 1, 5, 2)]
RECORDINGS = {
    "single": ((3, 2), FULL),
    "repeated": ((2, 2), [(0, 7, ALL), (1, 7, ALL), (0, 9, ALL), (3, 8, ALL), (0, 8, ALL)]),
    "missing": ((3, 1), [(0, 1, ALL), (0, 2, frozenset({0, 2})), (1, 1, frozenset({3})), (2, 1, ALL), (2, 2, ALL)]),
}
BACKENDS = ([["py", b] for b in (1, 2, 4, 6)] + [["h5", p] for p in ("positions", "consecutive", "stem")] + [["v1", s] for s in (1, 2)] + [["v3", s] for s in (1, 2)] +
            [["seq", v] for v in (4, 5)] + [["thread", v, t] for v in (4, 5) for t in (1, 2, 5)] + [["multi-pass", 5, t] for t in (1, 2, 5)])
SQUARE = (FRAME, FRAME)


def shape_of(backend):
    return (6, 10) if backend[0] in ("py", "h5", "v1") else SQUARE


def make_reader(backend, name, frames):
    """frames: pixels for each frame of the recording. Returns (reader, has scan size)"""
    from stempy.io import reader, PyReader
    import h5py
    dims, fr = RECORDINGS[name]
    d = scratch()
    kind = backend[0]
    numbers = [p for p, _, _ in fr]
    if kind == "py":
        return PyReader(np.array(frames), numbers, dims, backend[1], len(frames)), True
    if kind == "h5":
        f = h5py.File(os.path.join(d, "a.h5"), "w")
        order = np.arange(len(frames))
        if backend[1] != "positions":
            order = np.argsort(numbers)
        ds = f.create_dataset("frames", data=np.array(frames)[order])
        if backend[1] == "positions":
            f["scan_positions"] = np.array(numbers, dtype=np.uint32)
        if backend[1] == "stem":
            f["stem/images"] = np.zeros((1, dims[1], dims[0]))
        else:
            ds.attrs["scan_dimensions"] = dims
        f.close()
        return reader(h5py.File(os.path.join(d, "a.h5"), "r")), True
    files = {}
    if kind == "v1":
        per = 2 if backend[1] == 1 else 4
        blocks = [(frames[i:i + per], numbers[i:i + per]) for i in range(0, len(frames), per)]
        half = len(blocks) // backend[1]
        files["a.data"] = v1_file(blocks[:half] if backend[1] == 2 else blocks)
        if backend[1] == 2:
            files["b.data"] = v1_file(blocks[half:])
    elif kind == "v3":
        blocks = [header(1, f, dims, p) + px.astype("<u2").tobytes() for (p, f, _), px in zip(fr, frames)]
        half = len(blocks) // backend[1] if backend[1] == 2 else len(blocks)
        files["a.data"] = b"".join(blocks[:half])
        if backend[1] == 2:
            files["b.data"] = b"".join(blocks[half:])
    else:
        rec = [(p, f, px, sec) for (p, f, sec), px in zip(fr, frames)]
        order = {1: list(range(len(fr)))[::-1]} if all(len(s) == 4 for _, _, s in fr) else None
        files = sector_files(backend[1], rec, dims, order=order)
    paths = []
    for n, c in files.items():
        p = os.path.join(d, n)
        with open(p, "wb") as o:
            o.write(c)
        paths.append(p)
    version = backend[1] if kind in ("seq", "thread", "multi-pass") else int(kind[1])
    back = kind if kind in ("thread", "multi-pass") else None
    return reader(paths, version=version, backend=back, **({"threads": backend[2]} if back else {})), kind != "v1"


def thresholds(shape, gain, samples, bg, xray):
    """The thresholds for frames of these values"""
    from stempy import _image
    from stempy.io import PyReader
    fr = base_frame(0, shape).astype(np.uint16)[None]
    b = next(PyReader(fr, [0], (1, 1), 1, 1))
    args = [[b._block], np.zeros(shape, np.float32), samples, float(bg), float(xray)]
    if gain is not None:
        args.append(np.ones(shape, np.float32))
    return _image.calculate_thresholds(*args)


# ------------------------------------------------------------------ cases
def cases(tier):
    out = []
    for b in BACKENDS:
        for n in RECORDINGS:
            if n != "single" and b[0] not in ("thread", "multi-pass"):
                continue
            for dark in (None, "zero", "low", "high"):
                for gain in (None, "one", "pattern"):
                    if n != "single" and tier == "quick" and b[-1] == 2 and (dark, gain) not in ((None, None), ("high", "pattern")):
                        continue
                    out.append(["count", b, n, dark, gain])
    for b in BACKENDS:
        for lay in LAYOUTS:
            out.append(["layout", b, lay])
        if b[0] not in ("thread", "multi-pass"):
            out.append(["after", b])
    for n in ("single", "repeated", "missing", "deep"):
        for t in (1, 3):
            for part in range(8):
                out.append(["frames", n, t, part, 3 if tier == "thorough" else 2])
    for v in (1, 2, 3, 4, 5):
        for back in (None, "thread", "multi-pass", "mpi", ""):
            out.append(["reader", v, back])
    return out


def run_case(case, ctx):
    return globals()["do_" + case[0]](ctx, *case[1:])


def count(reader, **kw):
    from stempy.image import electron_count
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return electron_count(reader, **kw)


def judge(what, arr, backend, name, frames, dark, gain, row, th, scan):
    from stempy.io import SparseArray
    dims, fr = RECORDINGS[name]
    threaded = backend[0] in ("thread", "multi-pass")
    shape = frames[0].shape
    if not isinstance(arr, SparseArray):
        return f"{what}: returned {type(arr)}"
    if tuple(arr.scan_shape) != tuple(scan[::-1]) or tuple(arr.frame_shape) != shape:
        return f"{what}: scan shape {arr.scan_shape}, frame shape {arr.frame_shape}, expected {scan[::-1]}, {shape}"
    meta = arr.metadata.get("electron_counting")
    if not isinstance(meta, dict):
        return f"{what}: no metadata"
    if threaded:
        if meta["threshold_calculated"] is not True:
            return f"{what}: threshold_calculated is {meta['threshold_calculated']}"
        for a, b in (("background_threshold", "background_threshold"), ("x_ray_threshold", "xray_threshold"), ("number_of_samples",) * 2, ("min_sample",) * 2, ("max_sample",) * 2, ("mean",) * 2,
                     ("variance",) * 2, ("std_dev",) * 2, ("number_of_bins",) * 2, ("x_ray_threshold_n_sigma", "xray_threshold_n_sigma"), ("background_threshold_n_sigma",) * 2,
                     ("optimized_mean",) * 2, ("optimized_std_dev",) * 2):
            if not np.isclose(meta[a], getattr(th, b), rtol=1e-5, atol=1e-5):
                return f"{what}: {a} is {meta[a]}, expected {getattr(th, b)}"
    kinds = [(p, px) for (p, f, sec), px in zip(fr, frames) if len(sec) == 4 or backend[0] == "multi-pass"]
    stack = np.array([px for _, px in kinds])
    inv = None if gain is None else 1 / gain
    variants, skip = c10.ref_events(stack, dark, inv, th.background_threshold, th.xray_threshold, row, np.float32(th.optimized_mean))
    want = [[] for _ in range(scan[0] * scan[1])]
    for i, (p, _) in enumerate(kinds):
        want[p].append(None if skip[i] else [np.flatnonzero(v[i].ravel()).tolist() for v in variants])
    depth = max(len(w) for w in want)
    if arr.data.shape != (len(want), depth):
        return f"{what}: data of shape {arr.data.shape}, expected {(len(want), depth)}"
    for p, w in enumerate(want):
        w += [[[]]] * (depth - len(w))
        got = [np.asarray(x) for x in arr.data[p]]
        if any(g.dtype.kind not in "ui" or g.ndim != 1 for g in got):
            return f"{what}: events of type {[g.dtype for g in got]}"
        got = [g.tolist() for g in got]
        for x in w:
            if x is None:
                continue
            hit = next((v for v in x if v in got), None)
            if hit is None:
                return f"{what}: position {p} has events {got}, expected {w}"
            got.remove(hit)
        if len(got) != sum(x is None for x in w):
            return f"{what}: position {p} has events {arr.data[p]}, expected {w}"
    return None


def do_count(ctx, backend, name, dark_kind, gain_kind):
    shape = shape_of(backend)
    dark, gain = dark_ref(dark_kind, shape), gain_ref(gain_kind, shape)
    dims, fr = RECORDINGS[name]
    full = [raw(k, shape, dark, gain) for k in range(len(fr))]
    frames = [visible(backend[1], px, sec) if len(sec) < 4 else px for (_, _, sec), px in zip(fr, full)]
    complete = sum(len(s) == 4 for _, _, s in fr)
    threaded = backend[0] in ("thread", "multi-pass")
    for row in (None, "mean", "median"):
        for blocks in ([1, 2, complete] if threaded or backend == ["py", 1] or backend[0] in ("seq", "v3") else [1, 2] if backend in (["py", 2], ["py", 4], ["v1", 1], ["v1", 2]) else [1]):
            for given in (False, True):
                samples, bg, xray = (40, 4, 3.5) if given else (7, 3.5, 4.5)
                what = f"electron_count with {backend}, {name}, dark={dark_kind} gain={gain_kind} row={row} blocks={blocks} scan={'given' if given else 'file'}"
                reader, has_scan = make_reader(backend, name, full)
                if not has_scan and not given:
                    # the file has no scan size
                    try:
                        arr = count(reader, darkreference=dark, gain=gain, number_of_samples=samples)
                    except Exception:
                        continue
                    return f"{what}: no error without a scan size, but {arr}"
                scan = (dims[0], dims[1] + 1) if given else dims
                kw = dict(darkreference=None if dark is None else dark.copy(), gain=None if gain is None else gain.copy(), number_of_samples=samples, background_threshold_n_sigma=bg, xray_threshold_n_sigma=xray,
                          threshold_num_blocks=blocks, apply_row_dark=row is not None)
                if row:
                    kw["apply_row_dark_use_mean"] = row == "mean"
                if given:
                    kw["scan_dimensions"] = scan
                th = thresholds(shape, gain, samples, bg, xray)
                for again in range(2 if backend[0] == "multi-pass" else 1):
                    arr = count(reader, **kw)
                    ctx.step((what, again))
                    m = judge(what, arr, backend, name, frames, dark, gain, row, th, scan)
                    if m:
                        return m
                if dark is not None and not np.array_equal(kw["darkreference"], dark) or gain is not None and not np.array_equal(kw["gain"], gain):
                    return f"{what}: the caller's arrays were modified"
    return None


def strided(a):
    b = np.full((a.shape[0] * 2, a.shape[1] * 2), 99, a.dtype)
    b[::2, ::2] = a
    return b[::2, ::2]


def image_array(a):
    """A dark reference as calculate_average() returns it"""
    from stempy.image import calculate_average
    from stempy.io import PyReader
    return calculate_average(PyReader(a.astype(np.uint16)[None], [0], (1, 1), 1, 1))


LAYOUTS = {"c": (np.array, np.array), "fortran": (np.asfortranarray, np.asfortranarray), "strided": (strided, strided),
           "double": (lambda a: a.astype(np.float64), lambda a: a.astype(np.float64)), "ints": (lambda a: a.astype(np.uint8), lambda a: strided(a.astype(np.float64))),
           "negative": (lambda a: np.ascontiguousarray(a[::-1])[::-1], lambda a: np.ascontiguousarray(a[:, ::-1])[:, ::-1]),
           "image": (image_array, np.array), "image-view": (lambda a: image_array(np.concatenate([a, a + 1]))[:len(a)], np.array),
           "image-changed": (lambda a: image_array(a + 3) - 3, np.array), "readonly": (lambda a: frozen(a), lambda a: frozen(a))}


def frozen(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def do_layout(ctx, backend, lay):
    shape = shape_of(backend)
    dark, gain = dark_ref("high", shape), gain_ref("pattern", shape)
    dims, fr = RECORDINGS["single"]
    for d, g in itertools.product((True, False), repeat=2):
        frames = [raw(k, shape, dark if d else None, gain if g else None) for k in range(len(fr))]
        th = thresholds(shape, gain if g else None, 10, 4, 10)
        for row in (None, "mean"):
            reader, _ = make_reader(backend, "single", frames)
            arr = count(reader, darkreference=LAYOUTS[lay][0](dark) if d else None, gain=LAYOUTS[lay][1](gain) if g else None, number_of_samples=10, scan_dimensions=dims, apply_row_dark=bool(row))
            ctx.step((str(backend), lay, d, g, row))
            m = judge(f"electron_count with {backend}, dark={d} gain={g} as {lay} row={row}", arr, backend, "single", frames, dark if d else None, gain if g else None, row, th, dims)
            if m:
                return m
    return None


def do_after(ctx, backend):
    """Blocks were read before"""
    shape = shape_of(backend)
    dims, fr = RECORDINGS["single"]
    frames = [raw(k, shape, None, None) for k in range(len(fr))]
    th = thresholds(shape, None, 10, 4, 10)
    n = 0
    while True:
        reader, _ = make_reader(backend, "single", frames)
        left = False
        for i in range(n):
            if reader.read() is None:
                return None
        ctx.step((str(backend), n))
        try:
            arr = count(reader, number_of_samples=10, scan_dimensions=dims)
        except (StopIteration, RuntimeError):
            # nothing left for the thresholds
            if reader.read() is not None:
                return f"electron_count with {backend} after {n} blocks fails, but there are blocks left"
            return None if n else f"electron_count with {backend} fails"
        m = judge(f"electron_count with {backend} after {n} blocks", arr, backend, "single", frames, None, None, None, th, dims)
        if m:
            return m
        reader.reset()
        arr = count(reader, number_of_samples=10, scan_dimensions=dims)
        m = judge(f"electron_count with {backend} after a reset", arr, backend, "single", frames, None, None, None, th, dims)
        if m:
            return m
        n += 1


# ------------------------------------------------------------------ single frames
def do_frames(ctx, name, threads, part, depth):
    from stempy.io import reader
    dims, fr = ((2, 2), [(p, 10 + f, ALL) for f in range(4) for p in (2, 0, 3, 1)]) if name == "deep" else RECORDINGS[name]
    pixels = [unique_frame(p, f) for p, f, _ in fr]
    rec = [(p, f, px, sec) for (p, f, sec), px in zip(fr, pixels)]
    d = scratch()
    paths = []
    for n, c in sector_files(5, rec, dims).items():
        paths.append(os.path.join(d, n))
        with open(paths[-1], "wb") as o:
            o.write(c)
    r = reader(paths, version=5, backend="multi-pass", threads=threads)
    at = {}
    for p, f, px, sec in sorted(rec, key=lambda x: x[1]):
        at.setdefault(p, []).append(visible(5, px, sec))
    most = max(len(v) for v in at.values())
    if part % 2 == 0:
        if r.num_frames_per_scan != most:
            return f"num_frames_per_scan is {r.num_frames_per_scan}, expected {most}"
    if tuple(r.scan_shape) != dims[::-1]:
        return f"scan_shape is {r.scan_shape}, expected {dims[::-1]}"
    n = most
    values = [None] + list(range(-n - 1, n + 2))
    index = [("none", None)] + [("int", k) for k in range(-n - 2, n + 2)] + [("int", np.int64(k)) for k in (-1, 0, n)] + [("int", np.uint8(0))]
    index += [("slice", slice(a, b, c)) for a in values for b in values for c in (None, -3, -2, -1, 1, 2, 3)]
    index += [("list", list(x)) for k in range(depth + 1) for x in itertools.product(range(-n - 1, n + 1), repeat=k)]
    index += [("list", np.array(x, dtype=int)) for k in (0, 1, 2) for x in itertools.product(range(-n, n), repeat=k)]
    index += [("list", list(x)) for x in itertools.product((False, True), repeat=n)] + [("list", np.array(x)) for x in itertools.product((False, True), repeat=n)]
    w, h = dims
    forms = []
    for y, x in itertools.product(range(h), range(w)):
        p = y * w + x
        forms += [(p, p), (p, np.int64(p)), (p, np.uint32(p)), (p, (y, x)), (p, [y, x]), (p, (np.int64(y), np.int32(x)))]
    bad = [w * h, w * h + 1, 1 << 20, -1, (h, 0), (0, w), (-1, 0), (0, -1), [h, w], (h + 1, 0), (0, -w)]
    for k, (p, form) in enumerate(forms):
        for i, (kind, idx) in enumerate(index):
            if (i + k) % 8 != part:
                continue
            what = f"read_frames({form!r}, {idx!r}) of {name}"
            here = at.get(p, [])
            try:
                want = [int(v) for v in (np.arange(most) if idx is None else np.atleast_1d(np.arange(most)[idx if not isinstance(idx, list) or idx else np.array([], int)]))]
            except IndexError:
                want = None
            try:
                got = r.read_frames(form, idx) if idx is not None or i % 2 else r.read_frames(form)
            except Exception as e:
                ctx.step((what, type(e)))
                if isinstance(idx, list) and not idx and isinstance(e, IndexError):
                    continue        # numpy takes an empty list for indices that are not integers
                if want is None and isinstance(e, IndexError) or want is not None and any(v >= len(here) for v in want):
                    continue
                return f"{what}: {type(e).__name__}: {e}"
            ctx.step((what, "ok"))
            if want is None:
                return f"{what}: no error"
            if (kind == "int") != (not isinstance(got, list)):
                return f"{what} returned {type(got)}"
            blocks = [got] if kind == "int" else got
            if idx is None and len(here) < most and len(blocks) == len(here):
                want = list(range(len(here)))
            if any(v >= len(here) for v in want):
                return f"{what}: no error, but there are only {len(here)} frames"
            if len(blocks) != len(want):
                return f"{what} returned {len(blocks)} frames, expected {want}"
            for b, v in zip(blocks, want):
                if b.data.shape != SQUARE or b.data.dtype != np.uint16 or not np.array_equal(b.data, here[v]):
                    return f"{what}: frame {v} is {b.data.tolist()}, expected {here[v].tolist()}"
                if list(b.header.image_numbers) != [p] or tuple(b.header.scan_dimensions) != dims or b.header.images_in_block != 1:
                    return f"{what}: header {b.header.image_numbers} {b.header.scan_dimensions}"
    if part == 0:
        for form in bad:
            for idx in (None, 0, [0], slice(0, 1)):
                try:
                    got = r.read_frames(form, idx)
                except (IndexError, ValueError, TypeError):
                    continue
                finally:
                    ctx.step((str(form), str(idx)))
                return f"read_frames({form!r}, {idx!r}) of {name} returned {got}"
    return None


# ------------------------------------------------------------------ reader()
def do_reader(ctx, version, backend):
    from stempy import io
    dims, fr = RECORDINGS["single"]
    d = scratch()
    size = c07.V2_IMAGES if version == 2 else 0
    frames = [unique_frame(p, f) for p, f, _ in fr]
    if version >= 4:
        files = sector_files(version, [(p, f, px, s) for (p, f, s), px in zip(fr, frames)], dims)
    elif version == 3:
        files = {"a.data": b"".join(header(1, f, dims, p) + px.astype("<u2").tobytes() for (p, f, _), px in zip(fr, frames))}
    elif version == 2:
        files = {"a.data": c07.v2_block(0)[0]}
        frames = np.frombuffer(files["a.data"][4:], dtype="<u2").reshape(-1, FRAME, FRAME)
    else:
        files = {"a.data": v1_file([(frames, [p for p, _, _ in fr])])}
    paths = []
    for n, c in files.items():
        paths.append(os.path.join(d, n))
        with open(paths[-1], "wb") as o:
            o.write(c)
    for path in (paths, tuple(paths)) + ((paths[0],) if version <= 3 else ()):
        what = f"reader({'file' if isinstance(path, str) else type(path).__name__}, version={version}, backend={backend!r})"
        try:
            r = io.reader(path, version=version, backend=backend)
        except Exception as e:
            ctx.step((what, type(e)))
            if version >= 4 and (backend in ("mpi", "") or backend == "multi-pass" and version == 4):
                continue
            return f"{what}: {type(e).__name__}: {e}"
        ctx.step((what, "ok"))
        if version >= 4 and (backend in ("mpi", "") or backend == "multi-pass" and version == 4):
            return f"{what}: no error"
        kind = {None: io.SectorReader, "thread": io.SectorThreadedReader, "multi-pass": io.SectorThreadedMultiPassReader}.get(backend) if version >= 4 else io.Reader
        if type(r) is not kind:
            return f"{what} is a {type(r)}"
        if kind not in (io.Reader, io.SectorReader):
            continue
        for again in range(2):
            got = list(r)
            k = 0
            seen = []
            for b in got:
                if b.data.shape != (b.header.images_in_block, FRAME, FRAME) or tuple(b.header.frame_dimensions) != SQUARE or b.header.version != version:
                    return f"{what}: block of shape {b.data.shape}, header {b.header.version} {b.header.frame_dimensions}"
                if version >= 3 and tuple(b.header.scan_dimensions) != dims:
                    return f"{what}: scan dimensions {b.header.scan_dimensions}"
                seen += list(zip(b.header.image_numbers, b.data))
            want = list(zip(range(len(frames)) if version == 2 else [p for p, _, _ in fr], frames))
            if version >= 4:
                seen.sort(key=lambda x: x[0])
                want.sort(key=lambda x: x[0])
            if [n for n, _ in seen] != [n for n, _ in want] or any(not np.array_equal(a, b) for (_, a), (_, b) in zip(seen, want)):
                return f"{what}: images {[n for n, _ in seen][:20]}, or their pixels, are wrong"
            if r.read() is not None:
                return f"{what}: read() returns a block at the end"
            r.reset()
    return None
