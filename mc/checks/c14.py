"""C14: raw data converted to HDF5 and read back: every recording of a bounded space, both layouts, every frame count."""
import itertools, os, shutil, tempfile
import numpy as np
from mc import ops
from mc.sectors import *
from mc.checks.c05 import frame, ref_stem

NEEDS_ASAN = True
NEEDS_OPS = True
PROPERTY = "C14"
BOUNDS = {"quick": "sector files of versions 4 and 5, both layouts: every subset of the positions of scans up to 3x2 and 2x3, every order of arrival of 4 frames (of all and of one sector), every pair of missing sectors of two frames, conversion after partial reads, twice, over existing files and to places that cannot be written; saved arrays: 0 to 100 frames (block size 32), every order of 4 positions, 8 element types, compressed or not, 10 frame shapes, rewinds after every number of blocks; STEM images: 0 to 3 images of 4 shapes x 6 types, wrong numbers of names, new and existing files; detectors of 8x8 and 576x576 pixels",
          "thorough": "as quick with scans up to 3x3, orders of 5 frames and up to 200 frames"}
ASSUMPTIONS = ["one frame per scan position in conversions (the layouts have one place per position)", "the data cube is indexed by column and row of the scan"]
CASE_TIMEOUT = 120

_dir = None


def setup():
    global _dir
    import atexit
    _dir = tempfile.mkdtemp(prefix="mc14_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, True))
    ops.setup()


def path(name="out.h5"):
    p = os.path.join(_dir, f"{os.getpid()}_{name}")
    if os.path.exists(p):
        os.unlink(p)
    return p


LAYOUTS = ["frame", "datacube"]
SMALL = [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3)]


def cases(tier):
    out = []
    scans = SMALL + ([(3, 3), (5, 1), (1, 5)] if tier == "thorough" else [])
    n = 5 if tier == "thorough" else 4
    for v in (4, 5):
        for lay in LAYOUTS:
            for dims in scans:
                k = dims[0] * dims[1]
                for m in range(0, 1 << k, 32):
                    out.append(["subset", v, lay, list(dims), m, min(m + 32, 1 << k)])
            for dims in ((n, 1), (1, n), (2, (n + 1) // 2), ((n + 1) // 2, 2)):
                for sectors in (0, 1):
                    out.append(["order", v, lay, list(dims), sectors, n])
            for first in range(16):
                out.append(["sectors", v, lay, first])
            for before in range(4):
                out.append(["history", v, lay, before])
            out += [["large", v, lay, d] for d in ((257, 300), (300, 257))]
            out += [["nowhere", v, lay], ["real", v, lay]]
    for k in range(0, 201 if tier == "thorough" else 101, 4):
        out.append(["count", k, k + 4])
    for i in range(24):
        out.append(["positions", i])
    for t in TYPES:
        out.append(["type", t])
    out += [["shapes"], ["rewind"], ["older"], ["mismatch"]]
    out += [["stem_images", n] for n in range(4)]
    return out


def run_case(case, ctx):
    return globals()["do_" + case[0]](ctx, *case[1:])


def convert(v, lay, files, operations=(), out=None):
    """-> (path, what each operation returned)"""
    out = out or path()
    for f in os.listdir(ops.scratch()):
        if f.startswith("data_scan"):
            os.unlink(os.path.join(ops.scratch(), f))
    paths = ops.write_files(files)
    operations = [o.format(out=out, lay=lay) for o in (list(operations) or ["tohdf5 {out} {lay}"])]
    return out, ops.run(ops.scenario("seq", v, 1, paths, operations))


def verify(ctx, what, v, lay, dims, frames, out, size=FRAME):
    """frames: [(pos, frame number, pixels, sectors)], at most one per position"""
    import h5py
    from stempy.io import reader
    from stempy.image import create_stem_images
    want = np.zeros((dims[0] * dims[1], size, size), np.uint16)
    present = False
    for p, _, px, sec in frames:
        if sec:
            want[p] = visible(v, px, sec)
            present = True
    try:
        f = h5py.File(out, "r")
    except OSError as e:
        return f"{what}: the file cannot be opened: {e}"
    with f:
        name = "frames" if lay == "frame" else "datacube"
        if name not in f:
            return None if not present else f"{what}: no data set {name}"
        d = f[name]
        got = d[()]
        ctx.step((what, got.tobytes()))
        if lay == "datacube":
            want = want.reshape((dims[1], dims[0], size, size)).transpose(1, 0, 2, 3)
        if got.shape != want.shape or got.dtype != np.uint16:
            return f"{what}: data of {got.shape} ({got.dtype}) instead of {want.shape}"
        if not np.array_equal(got, want):
            bad = np.argwhere((got != want).any(axis=(-1, -2))).tolist()
            return f"{what}: wrong pixels at {bad}"
        if lay == "datacube":
            return None
        if list(d.attrs.get("scan_dimensions", [])) != list(dims):
            return f"{what}: scan_dimensions {d.attrs.get('scan_dimensions')} instead of {dims}"
        m = read_back(ctx, what, reader(f), want, range(len(want)), dims)
        if m:
            return m
        images = create_stem_images(f, [0, 2], [3, 100])
        ref = ref_stem(want, range(len(want)), dims, [(0, 3), (2, 100)]).reshape(2, dims[1], dims[0])
        if not np.array_equal(images, ref.astype(np.uint64)):
            return f"{what}: STEM images {np.asarray(images).tolist()} instead of {ref.tolist()}"
    return None


def read_back(ctx, what, r, want, numbers, dims):
    """Everything once, in blocks"""
    seen = []
    for block in r:
        h = block.header
        nums = list(h.image_numbers)
        data = np.array(block.data)
        if tuple(h.scan_dimensions) != tuple(dims):
            return f"{what}: scan dimensions {h.scan_dimensions} instead of {dims}"
        if h.images_in_block != len(nums) or data.shape != (len(nums),) + want.shape[1:] or tuple(h.frame_dimensions) != want.shape[:0:-1]:
            return f"{what}: block of {data.shape}, frames of {h.frame_dimensions}, numbers {nums}"
        seen += [(n, px) for n, px in zip(nums, data)]
        if len(seen) > len(want):
            break
    ctx.step((what, len(seen)))
    if [n for n, _ in seen] != list(numbers):
        return f"{what}: images {[n for n, _ in seen]} instead of {list(numbers)}"
    for k, (_, px) in enumerate(seen):
        if not np.array_equal(px, want[k]):
            return f"{what}: frame {k} is {px.tolist()} instead of {want[k].tolist()}"
    return None


def conversion(ctx, what, v, lay, dims, frames, **kw):
    try:
        out, got = convert(v, lay, sector_files(v, frames, dims, **kw))
    except ops.Failure as e:
        return f"{what}: {e}"
    if got[-1] != "ok":
        return f"{what}: {got}"
    return verify(ctx, what, v, lay, dims, frames, out)


def do_subset(ctx, v, lay, dims, lo, hi):
    k = dims[0] * dims[1]
    for m in range(lo, hi):
        frames = [(p, p, unique_frame(p, 0), ALL) for p in range(k) if m >> p & 1]
        e = conversion(ctx, f"{lay} of version {v}, scan {dims}, positions {[f[0] for f in frames]}", v, lay, dims, frames)
        if e:
            return e
    return None


def do_large(ctx, v, lay, dims):
    """Positions that need more than 8 and 16 bits"""
    n = dims[0] * dims[1]
    at = sorted({0, 255, 256, 257, dims[0] - 1, dims[0], 65535, 65536, 65537, n - 1})
    frames = [(p, p, unique_frame(p, 0), ALL) for p in at]
    return conversion(ctx, f"{lay} of version {v}, scan {dims}", v, lay, dims, frames, order={1: list(range(len(at)))[::-1]})


def do_order(ctx, v, lay, dims, one, n):
    frames = [(p, p, unique_frame(p, 1), ALL) for p in range(n)]
    for perm in itertools.permutations(range(n)):
        what = f"{lay} of version {v}, scan {dims}, order {perm}" + (" of one sector" if one else "")
        e = (conversion(ctx, what, v, lay, dims, frames, order={1: perm}, split={2: 1}) if one
             else conversion(ctx, what, v, lay, dims, [frames[i] for i in perm]))
        if e:
            return e
    return None


def do_sectors(ctx, v, lay, first):
    for second in range(16):
        frames = [(0, 0, unique_frame(0, 0), frozenset(s for s in range(4) if first >> s & 1)), (1, 1, unique_frame(1, 1), frozenset(s for s in range(4) if second >> s & 1))]
        for dims in ((2, 1), (1, 3)):
            e = conversion(ctx, f"{lay} of version {v}, scan {dims}, sectors {first:04b} {second:04b}", v, lay, dims, frames)
            if e:
                return e
    return None


def do_history(ctx, v, lay, before):
    dims = (2, 2)
    frames = [(p, p, unique_frame(p, 2), ALL if p != 2 else ALL - {1}) for p in (3, 0, 2)]
    files = sector_files(v, frames, dims)
    other = "datacube" if lay == "frame" else "frame"
    for history in (["read"] * before + ["reset", "tohdf5 {out} {lay}"],
                    ["tohdf5 {out} {lay}", "reset"] + ["read"] * before + ["reset", "tohdf5 {out} {lay}"],
                    [f"tohdf5 {{out}} {other}", "reset", "tohdf5 {out} {lay}"],
                    ["tohdf5 {out} {lay}", "reset", f"tohdf5 {{out}}.other {other}"],
                    ["captured", "reset", "tohdf5 {out} {lay}"]):
        what = f"{lay} of version {v} after {history}"
        out = path()
        with open(out, "wb") as f:
            f.write(b"something else" * 1000)
        try:
            _, got = convert(v, lay, files, history, out)
        except ops.Failure as e:
            return f"{what}: {e}"
        if got[-1] != "ok":
            return f"{what}: {got}"
        e = verify(ctx, what, v, lay, dims, frames, out)
        if e:
            return e
    return None


def do_nowhere(ctx, v, lay):
    """What cannot be written has to be reported"""
    frames = [(p, p, unique_frame(p, 2), ALL) for p in range(2)]
    for out in (os.path.join(_dir, "none", "out.h5"), _dir):
        try:
            _, got = convert(v, lay, sector_files(v, frames, (2, 1)), out=out)
        except ops.Failure as e:
            return f"{lay} to {out}: {e}"
        ctx.step(got[-1])
        if not got[-1].startswith("error"):
            return f"{lay} to {out}, which cannot be written: {got}"
    return None


def do_real(ctx, v, lay):
    """The Python interface, with the detector at its real size"""
    from stempy.io import reader, write_hdf5, SectorReader
    dims = (2, 2)
    frames = [(p, p, unique_frame(p, 3, 576), ALL if p != 3 else ALL - {2}) for p in (1, 3, 0)]
    d = tempfile.mkdtemp(dir=_dir)
    paths = []
    for name, data in sector_files(v, frames, dims).items():
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(data)
        paths.append(p)
    out = path()
    r = reader(paths, version=v)
    write_hdf5(out, r, SectorReader.H5Format.Frame if lay == "frame" else SectorReader.H5Format.DataCube)
    m = verify(ctx, f"{lay} of version {v} (576x576)", v, lay, dims, frames, out, 576)
    shutil.rmtree(d)
    return m


def saved(ctx, what, data, dims, positions=None, zip_data=False, expected=None):
    import h5py
    from stempy.io import save_raw_data, reader
    out = path()
    save_raw_data(out, data, dims, positions, zip_data)
    with h5py.File(out, "r") as f:
        want = np.asarray(data).astype(np.uint16) if expected is None else expected
        numbers = range(len(data)) if positions is None else positions
        r = reader(f)
        for again in range(2):
            m = read_back(ctx, what, r, want, numbers, dims)
            if m:
                return m
            r.reset()
    return None


def do_count(ctx, lo, hi):
    for n in range(lo, hi):
        data = np.array([frame(k, (1, 2)) for k in range(n)], np.uint16).reshape(n, 1, 2)
        for positions in (None, list(range(n))[::-1], [(k * 7) % 11 for k in range(n)]):
            for z in (False, True):
                if n == 0 and z:
                    continue        # HDF5 has no chunks of nothing
                m = saved(ctx, f"{n} frames at {positions}{', compressed' if z else ''}", data, (11, max(n, 1)), positions, z)
                if m:
                    return m
    return None


def do_positions(ctx, i):
    perm = list(itertools.permutations(range(4)))[i]
    from stempy.image import create_stem_images
    from stempy.io import save_raw_data
    import h5py
    for make in (list, tuple, np.array, lambda p: np.array(p, np.uint32), lambda p: np.array(p, np.uint8)):
        for shape, dims in (((2, 3), (2, 2)), ((3, 2), (4, 1)), ((1, 1), (1, 4))):
            data = np.array([frame(k, shape) for k in range(4)])
            m = saved(ctx, f"positions {perm} of {dims}", data, dims, make(perm))
            if m:
                return m
            out = path()
            save_raw_data(out, data, dims, make(perm))
            with h5py.File(out, "r") as f:
                images = create_stem_images(f, [0, 1], [2, 9])
            ref = ref_stem(data, perm, dims, [(0, 2), (1, 9)]).reshape(2, dims[1], dims[0])
            if not np.array_equal(images, ref.astype(np.uint64)):
                return f"positions {perm} of {dims}: STEM images {np.asarray(images).tolist()} instead of {ref.tolist()}"
    return None


TYPES = ["uint8", "uint16", "int16", "uint32", "int64", "float32", "float64", ">u2", "strided", "fortran", "mirrored"]


def do_type(ctx, t):
    for n in (1, 2, 31, 32, 33, 65):
        for shape in ((2, 2), (3, 2), (1, 4)):
            data = np.array([frame(k, shape) for k in range(n)]) % 251
            if t == "strided":
                big = np.zeros((n * 2, shape[0], shape[1] * 2), np.uint16)
                big[::2, :, ::2] = data
                data = big[::2, :, ::2]
            elif t == "fortran":
                data = np.asfortranarray(data)
            elif t == "mirrored":
                data = data[::-1, ::-1, ::-1]
            else:
                data = data.astype(t)
            before = np.array(data)
            for z in (False, True):
                m = saved(ctx, f"{n} frames of {shape} {t}", data, (n, 1), None, z)
                if m:
                    return m
            if not np.array_equal(before, data):
                return f"the caller's array ({t}) was changed"
    return None


def do_shapes(ctx):
    for shape in [(h, w) for h in (1, 2, 3) for w in (1, 2, 3)] + [(16, 40)]:
        for n in (1, 5, 33, 64):
            data = np.array([frame(k, shape) for k in range(n)])
            for z in (False, True):
                for dims in ((n, 1), (1, n), (n + 3, 2)):
                    m = saved(ctx, f"{n} frames of {shape}", data, dims, None, z)
                    if m:
                        return m
    return None


def do_rewind(ctx):
    """Rewinds after every number of blocks"""
    import h5py
    from stempy.io import save_raw_data, reader
    for n in (1, 32, 33, 64, 65, 97):
        data = np.array([frame(k, (1, 2)) for k in range(n)])
        out = path()
        save_raw_data(out, data, (n, 1))
        with h5py.File(out, "r") as f:
            for first in range(n // 32 + 3):
                for second in range(n // 32 + 3):
                    r = reader(f)
                    for k in (first, second):
                        for i in range(k):
                            b = r.read()
                            if (b is None) != (i * 32 >= n):
                                return f"{n} frames: block {i} is {b}"
                        r.reset()
                    m = read_back(ctx, f"{n} frames, rewound after {first} and {second} blocks", r, data, range(n), (n, 1))
                    if m:
                        return m
    return None


def do_older(ctx):
    """Files without scan dimensions at the frames"""
    import h5py
    from stempy.io import reader
    from stempy.image import create_stem_images
    for dims in ((3, 2), (2, 3), (6, 1), (1, 6)):
        for images in (0, 2):
            data = np.array([frame(k, (2, 3)) for k in range(6)])
            out = path()
            with h5py.File(out, "w") as f:
                f.create_dataset("frames", data=data)
                f.create_dataset("stem/images", data=np.zeros((images, dims[1], dims[0]), np.uint64))
            with h5py.File(out, "r") as f:
                m = read_back(ctx, f"older file, scan {dims}", reader(f), data, range(6), dims)
                if m:
                    return m
                got = create_stem_images(f, [0], [9])
                ref = ref_stem(data, range(6), dims, [(0, 9)]).reshape(1, dims[1], dims[0])
                if not np.array_equal(got, ref.astype(np.uint64)):
                    return f"older file, scan {dims}: STEM images {np.asarray(got).tolist()} instead of {ref.tolist()}"
    return None


def do_mismatch(ctx):
    """Fewer positions than frames: an error"""
    import h5py
    from stempy.io import save_raw_data, reader
    for n in (1, 2, 33, 64):
        data = np.array([frame(k, (1, 2)) for k in range(n)])
        for k in {0, n // 2, n - 1}:
            out = path()
            try:
                save_raw_data(out, data, (n, 1), list(range(k)))
                with h5py.File(out, "r") as f:
                    got = [list(b.header.image_numbers) for b in reader(f)]
            except Exception:
                ctx.step((n, k))
                continue
            return f"{n} frames with {k} positions: images {got}"
    return None


def do_stem_images(ctx, n):
    """STEM images saved to new and to existing files"""
    import h5py
    from stempy.io import save_raw_data, save_stem_images, reader
    from stempy.image import create_stem_images
    raw = np.array([frame(k, (2, 3)) for k in range(6)])
    names = ["bright", "", "dark field \u00e9"]
    for h, w in ((1, 1), (2, 3), (3, 2), (1, 6)):
        for dt in ("u1", "u2", "u8", "i4", "f4", "f8"):
            for kind in ("array", "list", "view"):
                images = (np.arange(n * h * w * 2).reshape(n, h, w * 2)[:, ::-1, ::2] * 7 + 1).astype(dt)
                given = {"array": np.ascontiguousarray(images), "list": [list(map(list, i)) for i in np.ascontiguousarray(images)], "view": images}[kind]
                if kind == "list" and (n == 0 or dt not in ("i4", "f8")):
                    continue
                for existing in (False, True):
                    what = f"{n} images of {h}x{w} ({dt}, {kind}), {'existing' if existing else 'new'} file"
                    out = path()
                    if existing:
                        save_raw_data(out, raw)
                        before = open(out, "rb").read()
                    for wrong in range(4):
                        if wrong == n:
                            continue
                        try:
                            save_stem_images(out, given, [names[k % 3] for k in range(wrong)])
                        except Exception:
                            ctx.step((what, wrong))
                            if existing and open(out, "rb").read() != before:
                                return f"{what}: an error changed the file"
                            continue
                        return f"{what}: accepted {wrong} names"
                    save_stem_images(out, given, names[:n])
                    with h5py.File(out, "r") as f:
                        got = f["stem/images"][()]
                        ns = [k.decode() if isinstance(k, bytes) else k for k in f["stem/images"].attrs["names"]]
                        ctx.step((what, got.tobytes()))
                        if got.shape != images.shape or not np.array_equal(got, images) or (kind != "list" and got.dtype != images.dtype):
                            return f"{what}: {got.tolist()} ({got.dtype}) instead of {images.tolist()}"
                        if ns != names[:n]:
                            return f"{what}: names {ns} instead of {names[:n]}"
                        if existing:
                            if not np.array_equal(f["frames"][()], raw):
                                return f"{what}: the frames of the file changed"
                            if n and h * w == 6:
                                m = read_back(ctx, what, reader(f), raw, range(6), (w, h))
                                if m:
                                    return m
                    # a second time: an error, as the name is taken
                    before = open(out, "rb").read()
                    try:
                        save_stem_images(out, given, names[:n])
                    except Exception:
                        with h5py.File(out, "r") as f:
                            if not np.array_equal(f["stem/images"][()], got):
                                return f"{what}: the second attempt to save changed the images"
                        continue
                    with h5py.File(out, "r") as f:
                        if not np.array_equal(f["stem/images"][()], images):
                            return f"{what}: saving again changed the images"
    return None
