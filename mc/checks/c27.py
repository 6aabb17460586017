"""C27: calls are independent of each other: every pair of calls out of a pool, and every interleaving of two readers."""
import gc, itertools, os, pickle, shutil, signal, tempfile, warnings
from collections import namedtuple
import numpy as np
from mc.checks import c16, c26
from mc.sectors import *

NEEDS_PLAIN = True
NEEDS_SMALL = True
PROPERTY = "C27"
BOUNDS = {"quick": "every ordered pair out of {pool} calls (every public function, with 2 to 12 variants each that differ in the data, one parameter or one dimension), where what belongs to the first one is deleted before, and for calls of the same part also kept alive, or overwritten (all its results and arrays); every triple of variants of one function that has two different ones or is of the first five; "
                   "every interleaving of 3 operations on one reader with 3 operations on another one, for all pairs of 9 kinds of readers and 2 to 4 lists of operations each",
          "thorough": "as quick, with every triple of variants of functions of the same part, and interleavings of 4 operations"}
ASSUMPTIONS = ["what a call returns in a new process is right (the other properties judge that)", "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE)",
               "filter_bad_sectors repairs the array it is given (that is its documented purpose)", "slices of a sparse array may share memory with it, as in numpy"]
CASE_TIMEOUT = 300


def setup():
    c16.setup()
    BOUNDS["quick"] = BOUNDS["quick"].format(pool=len(pool()))


# ------------------------------------------------------------------ the pool
# name -> (family, make() -> dict of arguments, run(arguments) -> list of results, may it be run again with the same arguments)
def content(k, shape, n=6):
    return [c16.raw(i + 3 * k, shape, None, None) for i in range(n)]


def sparse(k=0, scan=(2, 3), frame=(5, 6), per=1, dtype=np.uint32, full=False):
    from stempy.io import SparseArray
    data = np.empty((scan[0] * scan[1], per), dtype=object)
    px = frame[0] * frame[1]
    for p in range(len(data)):
        for f in range(per):
            data[p, f] = np.array(sorted({(p * 7 + f * 5 + j * (3 + k) + k) % px for j in range((p + k) % 5)}), dtype=dtype)
    return SparseArray(data, scan, frame, allow_full_expand=full)


def com_array(k=0, shape=(4, 5)):
    i = np.arange(2 * shape[0] * shape[1]).reshape(2, *shape)
    return ((i * 7 + k * 5) % 13 - 6 + (i % 3 == k % 3) * 0.5).astype(float)


_where = None


def fresh_dir(name):
    """The files of a call are in a directory of their own, with the same names as those of the others if it is the same directory"""
    d = os.path.join(_where, name)
    shutil.rmtree(d, True)
    os.makedirs(d)
    return d


_slot = "same"


TWICE = [(0, 0, ALL), (0, 1, ALL), (2, 2, ALL), (3, 3, ALL), (3, 4, ALL), (1, 5, ALL)]


def reader_of(backend, k, dims=(3, 2), frames=c16.FULL, shape=None):
    c16._dir = (fresh_dir(_slot), os.getpid())
    c16.RECORDINGS["c27"] = (dims, frames)
    shape = shape or c16.shape_of(backend)
    return c16.make_reader(backend, "c27", content(k, shape))[0]


def block_list(r):
    r.reset()
    return [x for b in r for x in (list(b.header.image_numbers), list(b.header.scan_dimensions), b.data)]


def reader_ops(dims, center, radii, darks=True):
    from stempy import image as I
    kw = dict(scan_dimensions=dims, center=center)
    return {"blocks": lambda r: block_list(r),
            "average": lambda r: [r.reset(), I.calculate_average(r)][1:],
            "maximum": lambda r: [r.reset(), I.maximum_diffraction_pattern(r)][1:],
            "stem": lambda r: [r.reset(), I.create_stem_images(r, radii[0], radii[1], **kw)][1:],
            "hist": lambda r: histogram(r, radii, kw),
            "radial": lambda r: [r.reset(), I.radial_sum(r, **kw)][1:],
            "count": lambda r: count(r, dims)}


def histogram(r, radii, kw):
    from stempy import image as I
    r.reset()
    return list(I.create_stem_histogram(5, r, radii[0], radii[1], **kw))


def count(r, dims, **kw):
    if hasattr(r, "reset"):
        r.reset()
    arr = c16.count(r, number_of_samples=10, scan_dimensions=dims, **kw)
    m = arr.metadata["electron_counting"]
    return [arr, round(m["background_threshold"], 5), round(m["x_ray_threshold"], 5)]


def loads(r, positions):
    return [r.num_frames_per_scan, list(r.scan_shape)] + [b.data for p in positions for b in r.read_frames(p)]


def saved(arr, **kw):
    from stempy.io import save_electron_counts, load_electron_counts
    d = fresh_dir(_slot)
    save_electron_counts(d + "/a.h5", arr)
    return [load_electron_counts(d + "/a.h5", **kw)]


def raw_saved(data, positions, zip_data):
    import h5py
    from stempy.io import save_raw_data, reader
    d = fresh_dir(_slot)
    save_raw_data(d + "/r.h5", data, (3, 2), positions, zip_data)
    with h5py.File(d + "/r.h5", "r") as f:
        return [b.data.copy() for b in reader(f)]


def converted(backend, k, fmt):
    import h5py
    from stempy.io import write_hdf5, SectorReader
    r = reader_of(backend, k)
    path = os.path.join(c16._dir[0], "out.h5")
    write_hdf5(path, r, getattr(SectorReader.H5Format, fmt))
    with h5py.File(path, "r") as f:
        out = []
        f.visititems(lambda n, o: out.extend([n, o[()]] if hasattr(o, "shape") else [n]))
        return out


def lookup(names, kw):
    from stempy.contrib import get_scan_path
    d = fresh_dir(_slot)
    for n in names:
        open(os.path.join(d, n), "w").close()
    try:
        p, num, i = get_scan_path(d, **kw)
        return [os.path.basename(str(p)), num, i]
    except Exception as e:
        return [type(e).__name__]


_pool = None


def pool():
    global _pool
    if _pool is not None:
        return _pool
    from stempy import image as I
    from stempy.io import SparseArray
    P = {}

    def add(family, variant, make, run, again=True, inplace=False):
        P[f"{family}/{variant}"] = (family, make, run, again, inplace)

    def readers(backend, names, again=True):
        tag = "-".join(str(x) for x in backend)
        scan, auto, radii = (3, 2), (-1, -1), ([0, 2], [3, 6])
        # one thing differs from the first one
        variants = {"base": (0, scan, auto, radii, None), "data": (1, scan, auto, radii, None), "scan": (0, (2, 3), auto, radii, None), "columns": (0, (4, 2), auto, radii, None), "rows": (0, (3, 3), auto, radii, None),
                    "center": (0, scan, (2, 1), radii, None), "radii": (0, scan, auto, ([1, 2], [3, 5]), None), "wide": (0, scan, auto, radii, (6, 12)), "tall": (0, scan, auto, radii, (8, 10))}
        for op in names:
            for v, (k, dims, center, radii, shape) in variants.items():
                if v in ("center", "radii") and (op not in ("stem", "hist", "radial") or op == "radial" and v == "radii"):
                    continue
                if v in ("scan", "columns", "rows") and op in ("average", "maximum", "hist") or v in ("columns", "rows") and op == "blocks":
                    continue
                if v in ("wide", "tall") and (backend[0] != "py" or op == "blocks"):
                    continue
                add(f"{tag}-{op}", v, lambda b=backend, k=k, dims=dims, shape=shape: {"reader": reader_of(b, k, dims, shape=shape)}, lambda a, f=reader_ops(dims, center, radii)[op]: f(a["reader"]), again)

    readers(["py", 2], ["blocks", "average", "maximum", "stem", "hist", "radial", "count"])
    readers(["seq", 5], ["blocks", "stem", "count"])
    readers(["seq", 4], ["blocks"])
    readers(["v1", 2], ["blocks", "stem"])
    readers(["v3", 2], ["blocks", "count"])
    readers(["h5", "positions"], ["blocks", "radial"])
    readers(["thread", 5, 2], ["count"], False)
    readers(["multi-pass", 5, 2], ["count"])
    for v, k, pos, fr in (("base", 0, (0, 3), c16.FULL), ("data", 1, (0, 3), c16.FULL), ("place", 0, (2, 1), c16.FULL), ("twice", 0, (3, 0), TWICE)):
        add("load", v, lambda k=k, fr=fr: {"reader": reader_of(["multi-pass", 5, 2], k, frames=fr)}, lambda a, pos=pos: loads(a["reader"], pos))
    # options of counting
    shape = (6, 10)
    for b in (["py", 6], ["multi-pass", 5, 2]):
        shape = c16.shape_of(b)
        for v, dark, gain, kw in (("dark", "low", None, {}), ("dark2", "high", None, {}), ("gain", None, "pattern", {}), ("both", "low", "pattern", {}), ("sigma", None, None, {"background_threshold_n_sigma": 2, "xray_threshold_n_sigma": 6}),
                                  ("row", None, None, {"apply_row_dark": True}), ("median", None, None, {"apply_row_dark": True, "apply_row_dark_use_mean": False})):
            def make(b=b, dark=dark, gain=gain, shape=shape):
                d, g = c16.dark_ref(dark, shape), c16.gain_ref(gain, shape)
                c16._dir = (fresh_dir(_slot), os.getpid())
                c16.RECORDINGS["c27"] = ((3, 2), c16.FULL)
                return {"reader": c16.make_reader(b, "c27", [c16.raw(i, shape, d, g) for i in range(6)])[0], "darkreference": d, "gain": g}
            add(f"{b[0]}-options", v, make, lambda a, kw=kw: count(a["reader"], (3, 2), darkreference=a["darkreference"], gain=a["gain"], **kw))
    for v, k in (("base", 0), ("data", 1)):
        def dark_max(a):
            r = a["reader"]
            r.reset()
            dark = I.calculate_average(r)
            r.reset()
            return [dark, I.maximum_diffraction_pattern(r, dark)]
        add("dark-maximum", v, lambda k=k: {"reader": reader_of(["py", 2], k)}, dark_max)
    # sparse data
    arrays = {"base": {}, "data": {"k": 1}, "frame": {"frame": (6, 5)}, "scan": {"scan": (3, 2)}, "per": {"per": 2},
              "tall": {"frame": (7, 6)}, "wide": {"frame": (5, 7)}, "rows": {"scan": (3, 3)}, "columns": {"scan": (2, 4)}}

    def sparse_calls(family, run, variants=("base", "data", "frame", "scan", "per", "tall", "wide", "rows", "columns"), **kw):
        for v in variants:
            add(family, v, lambda v=v: {"array": sparse(**arrays[v])}, lambda a: run(a["array"]), **kw)

    for v, r, c in (("base", (0, 3), (-1, -1)), ("radii", (1, 4), (-1, -1)), ("center", (0, 3), (1, 2))):
        add("sparse-stem", v, lambda: {"array": sparse()}, lambda a, r=r, c=c: [I.create_stem_images(a["array"], r[0], r[1], center=c)])
    for v in ("data", "frame", "scan", "per", "tall", "wide", "rows", "columns"):
        add("sparse-stem", v, lambda v=v: {"array": sparse(**arrays[v])}, lambda a: [I.create_stem_images(a["array"], 0, 3)])
    add("sparse-stem", "ndarray", lambda: {"data": sparse().data}, lambda a: [I.create_stem_images(a["data"], 0, 3, (3, 2), frame_dimensions=(6, 5))])
    ecd = namedtuple("Counted", ["data", "scan_dimensions", "frame_dimensions"])
    add("sparse-stem", "tuple", lambda: {"data": ecd(sparse().data[:, 0], (3, 2), (6, 5))}, lambda a: [I.create_stem_images(a["data"], 0, 3)])
    add("sparse-stem", "raw", lambda: {"data": np.array(content(0, (6, 10)))}, lambda a: [I.create_stem_images(a["data"], 0, 3, (3, 2))])
    for ver in (0, 1):
        sparse_calls(f"com{ver}", lambda a, ver=ver: [I.com_sparse(a, version=ver)])
        for v, kw in (("crop", {"crop_to": 2}), ("center", {"crop_to": 2, "init_center": (1, 2)}), ("nan", {"replace_nans": False})):
            add(f"com{ver}", v, lambda: {"array": sparse()}, lambda a, kw=kw, ver=ver: [I.com_sparse(a["array"], version=ver, **kw)])
    for v, s, k in (("base", (3, 4, 5), 1), ("data", (3, 4, 5), 3), ("shape", (3, 5, 4), 1), ("number", (2, 4, 5), 1), ("tall", (3, 6, 5), 1), ("wide", (3, 4, 7), 1), ("single", (4, 5), 1)):
        add("com-dense", v, lambda s=s, k=k: {"frames": (np.arange(int(np.prod(s))) * (2 * k + 5) % 17).reshape(s)}, lambda a: [I.com_dense(a["frames"])])
    for v, k, s, cut in (("base", 0, (4, 5), (-4, 4)), ("data", 1, (4, 5), (-4, 4)), ("shape", 0, (5, 4), (-4, 4)), ("tall", 0, (6, 5), (-4, 4)), ("wide", 0, (4, 6), (-4, 4)), ("cut", 0, (4, 5), (-6, 2))):
        add("filter", v, lambda k=k, s=s: {"com": com_array(k, s)}, lambda a, cut=cut: [I.filter_bad_sectors(a["com"], cut)], again=False, inplace=True)
    for v, k, s, kw in (("base", 0, (4, 5), {}), ("data", 1, (4, 5), {}), ("shape", 0, (5, 4), {}), ("tall", 0, (6, 5), {}), ("wide", 0, (4, 6), {}), ("theta", 0, (4, 5), {"theta": 0.3}), ("flip", 0, (4, 5), {"flip": True}), ("reg", 0, (4, 5), {"reg": 0.1})):
        add("phase", v, lambda k=k, s=s: {"com": com_array(k, s)}, lambda a, kw=kw: [I.phase_from_com(a["com"], **kw)])
    sparse_calls("radial-sparse", lambda a: [I.radial_sum_sparse(a, (2, 2))])
    add("radial-sparse", "center", lambda: {"array": sparse()}, lambda a: [I.radial_sum_sparse(a["array"], (1, 3))])
    sparse_calls("vdf", lambda a: [I.virtual_darkfield(a, (2, 4), (1, 3), (2, 2))])
    add("vdf", "place", lambda: {"array": sparse()}, lambda a: [I.virtual_darkfield(a["array"], (1, 4), (1, 3), (2, 2))])
    add("vdf", "one", lambda: {"array": sparse()}, lambda a: [I.virtual_darkfield(a["array"], 2, 1, 3)])
    for v, m in (("base", 0), ("mask", 1)):
        add("mask", v, lambda m=m: {"array": sparse(), "mask": (np.arange(6).reshape(2, 3) % 2 == m)}, lambda a: [I.mask_real_space(a["array"], a["mask"])])
    add("mask", "data", lambda: {"array": sparse(1), "mask": (np.arange(6).reshape(2, 3) % 2 == 0)}, lambda a: [I.mask_real_space(a["array"], a["mask"])])
    for v, k in (("base", 0), ("data", 1)):
        add("sum-sparse", v, lambda k=k: {"data": sparse(k).data[:, 0]}, lambda a: [I.calculate_sum_sparse(a["data"], (5, 6))])
    for v, f in (("frame", (6, 5)), ("tall", (7, 6)), ("wide", (5, 7))):
        add("sum-sparse", v, lambda: {"data": sparse().data[:, 0]}, lambda a, f=f: [I.calculate_sum_sparse(a["data"], f)])
    sparse_calls("dense", lambda a: [a.to_dense()])
    for f in ("sum", "max", "min", "mean"):
        for v, ax in (("scan", (0, 1)), ("frame", (2, 3)), ("mixed", (1, 2))):
            add(f"reduce-{f}", v, lambda v=v: {"array": sparse(full=v == "mixed")}, lambda a, f=f, ax=ax: [getattr(a["array"], f)(axis=ax)])
        add(f"reduce-{f}", "data", lambda: {"array": sparse(1, per=2)}, lambda a, f=f: [getattr(a["array"], f)(axis=(0, 1))])
        for v in ("tall", "wide", "rows", "columns"):
            add(f"reduce-{f}", v, lambda v=v: {"array": sparse(**arrays[v])}, lambda a, f=f: [getattr(a["array"], f)(axis=(0, 1)), getattr(a["array"], f)(axis=(2, 3))])
        add(f"reduce-{f}", "type", lambda: {"array": sparse()}, lambda a, f=f: [getattr(a["array"], f)(axis=(0, 1), dtype=np.float64)])
    for v in ("base", "data", "per"):
        for n in (2, 3):
            add(f"bin-frames", f"{v}{n}", lambda v=v: {"array": sparse(**{**arrays[v], "frame": (6, 6), "dtype": np.uint16})}, lambda a, n=n: [a["array"].bin_frames(n)])
            add(f"bin-scans", f"{v}{n}", lambda v=v: {"array": sparse(**{**arrays[v], "scan": (6, 6)})}, lambda a, n=n: [a["array"].bin_scans(n)])
    for v, key in (("row", (slice(0, 1),)), ("position", (1, 2)), ("mask", (np.array([[True, False, True], [False, True, True]]),)), ("frames", (slice(None), slice(None), slice(1, 4), slice(2, None, 2))), ("pixel", (0, 1, 2, 3)), ("back", (slice(None, None, -1), slice(None, None, 2)))):
        add("slice", v, lambda: {"array": sparse()}, lambda a, key=key: [x.to_dense() if isinstance(x, SparseArray) else x for x in [a["array"][key]]])
    add("slice", "data", lambda: {"array": sparse(1)}, lambda a: [a["array"][1, 2]])
    add("slice", "dense", lambda: {"array": sparse(1)}, dense_slice)
    sparse_calls("save", lambda a: saved(a))
    sparse_calls("save-crop", lambda a: saved(a, keep_flyback=False), ("base", "data", "scan", "rows", "columns"))
    for v, k, pos, z in (("base", 0, None, False), ("data", 1, None, False), ("positions", 0, [5, 3, 1, 0, 2, 4], False), ("zip", 0, None, True), ("tall", 0, None, False), ("wide", 0, None, False)):
        add("save-raw", v, lambda k=k, v=v: {"data": np.array(content(k, {"tall": (8, 10), "wide": (6, 12)}.get(v, (6, 10))))}, lambda a, pos=pos, z=z: raw_saved(a["data"], pos, z))
    for v, k, fmt in (("frame", 0, "Frame"), ("data", 1, "Frame"), ("cube", 0, "DataCube")):
        add("convert", v, lambda: {}, lambda a, k=k, fmt=fmt: converted(["seq", 5], k, fmt))
    for v, names, kw in (("one", ["data_scan1_electrons.h5"], {"scan_num": 1}), ("other", ["data_scan2_electrons.h5"], {"scan_num": 1}), ("two", ["data_scan1_electrons.h5", "data_scan2_electrons.h5"], {"scan_num": 2}),
                         ("new", ["FOURD_240131_1205_00001_00001.h5", "data_scan1_electrons.h5"], {"scan_num": 1}), ("id", ["FOURD_240131_1205_00001_00001.h5", "data_scan1_electrons.h5"], {"scan_id": 1})):
        add("lookup", v, lambda: {}, lambda a, names=names, kw=kw: lookup(names, kw))
    _pool = P
    return P


def dense_slice(a):
    a["array"].sparse_slicing = False
    try:
        return [a["array"][0, :, 1:3]]
    finally:
        a["array"].sparse_slicing = True


# ------------------------------------------------------------------ what is compared
def canon(x):
    """The content of an argument or result, as something that can be compared"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ("objects", x.shape, tuple(canon(e) for e in x.ravel()))
    if isinstance(x, np.ndarray) or np.isscalar(x) and not isinstance(x, str):
        a = np.asarray(x)
        return ("array", a.shape, a.dtype.str, np.ascontiguousarray(a).tobytes())
    if type(x).__name__ == "SparseArray":
        # the order of the frames of a position depends on the schedule when they have been counted by several threads
        rows = tuple(tuple(sorted(canon(f) for f in row)) for row in x.data)
        return ("sparse", tuple(int(i) for i in x.scan_shape), tuple(int(i) for i in x.frame_shape), np.dtype(x.dtype).str, x.sparse_slicing, x.allow_full_expand, canon(x.metadata), ("objects", x.data.shape, sum(rows, ())))
    if isinstance(x, dict):         # metadata, whose numbers may depend on the samples
        return ("dict", tuple(sorted((k, canon(v) if isinstance(v, (dict, str, bytes, bool, int)) else None) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ("list", tuple(canon(e) for e in x))
    if x is None or isinstance(x, (str, bytes)):
        return x
    return type(x).__name__


def show(c):
    s = str(c)
    if isinstance(c, tuple) and c and c[0] == "list":
        return "[" + ", ".join(show(e) for e in c[1])[:500] + "]"
    if isinstance(c, tuple) and c and c[0] == "array":
        return str(np.frombuffer(c[3], c[2]).reshape(c[1]).tolist())[:300]
    if isinstance(c, tuple) and c and c[0] in ("objects", "sparse"):
        return "sparse " + str([show(e) for e in (c[2] if c[0] == "objects" else c[-1][2])])[:300]
    return s[:300]


def settings():
    s = np.random.get_state()
    return (tuple(sorted(np.geterr().items())), os.getcwd(), s[0], s[1].tobytes(), s[2], tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())), dict(os.environ) == _env)


_env = None


def attempt(name, args):
    P = pool()[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = {k: canon(v) for k, v in args.items()}
        state = settings()
        res = P[2](args)
        if settings() != state:
            return None, f"{name} changed a setting of the process (numpy's error state, print options or random numbers, the directory, the environment)"
        if not P[4]:
            for k, v in args.items():
                if canon(v) != before[k]:
                    return None, f"{name} changed its argument {k} from {show(before[k])} to {show(canon(v))}"
    return res, None


def spoil(x, seen=None):
    """Writes into everything that was returned (or given) and is writable"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for e in x.ravel():
                spoil(e, seen)
        elif x.flags.writeable and x.dtype.kind in "iufc":
            x[...] = 1
        elif x.flags.writeable and x.dtype.kind == "b":
            x[...] = True
    elif isinstance(x, (list, tuple)):
        for e in x:
            spoil(e, seen)
        if isinstance(x, list):
            x.append(None)
    elif type(x).__name__ == "SparseArray":
        spoil(x.data, seen)
        x.metadata["spoilt"] = 1


def forked(f, seconds=0):
    """f() in a child; returns what it returned, or the reason that it did not. After so many seconds it is ended (by the kernel, also when it is stuck)"""
    global _where
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(seconds)
        try:
            res = f()
        except BaseException as e:
            import traceback
            res = ("raised", traceback.format_exc()[-600:])
        with os.fdopen(w, "wb") as o:
            o.write(pickle.dumps(res))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        b = i.read()
    _, st = os.waitpid(pid, 0)
    if not b:
        return ("raised", f"it did not return within {seconds} s" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else f"the process ended with status {st}")
    return pickle.loads(b)


_base = {}


def baseline(name):
    """What the call returns in a process where nothing else has been called"""
    if name not in _base:
        def alone():
            args = pool()[name][1]()
            res, m = attempt(name, args)
            return ("raised", m) if m else ("ok", canon(res))
        _base[name] = forked(alone)
    return _base[name]


def run_sequence(names, mode):
    """None or what is wrong with a call, or with what is left of the earlier ones"""
    global _slot
    held = []
    for i, n in enumerate(names):
        _slot = f"d{i}" if mode == "keep" else "same"
        args = pool()[n][1]()
        res, m = attempt(n, args)
        if m:
            return m
        got = canon(res)
        want = baseline_of[n]
        if got != want[1]:
            return f"{n} after {names[max(i - 5, 0):i]} ({mode}) returned {show(got)}, alone it returns {show(want[1])}"
        if mode == "keep":
            held.append((n, args, res, got, _slot))
        elif mode == "spoil":
            spoil(res)
            spoil([v for k, v in args.items()])
            held.append((args, res))
        else:
            del args, res
            gc.collect()
    for n, args, res, got, _ in held if mode == "keep" else ():
        if canon(res) != got:
            return f"what {n} had returned was {show(got)} and is {show(canon(res))} after {names}"
    for n, args, res, got, _slot in held if mode == "keep" else ():
        if pool()[n][3]:
            again, m = attempt(n, args)
            if m:
                return m
            if canon(again) != got:
                return f"{n} again, after {names}, returned {show(canon(again))}, the first time {show(got)}"
    return None


baseline_of = {}


def start():
    global _where, _env
    if _where is None or not _where.endswith(f".{os.getpid()}"):
        _where = tempfile.mkdtemp(dir=c16.BASE, suffix=f".{os.getpid()}")
        _env = dict(os.environ)
        pool()
        gc.collect()
        gc.freeze()


def sequences(ctx, seqs):
    start()
    for names, mode in seqs:
        for n in names:
            b = baseline(n)
            if b[0] != "ok":
                return f"{n} alone: {b[1]}"
            baseline_of[n] = b
        m = forked(lambda: run_sequence(names, mode))
        ctx.step((tuple(names), mode))
        if m:
            return m if isinstance(m, str) else f"{names} ({mode}): {m[1]}"
    return None


def do_walk(ctx, first):
    """Every call from this one on directly before and after this one"""
    names = list(pool())
    seq = [x for n in names[names.index(first):] for x in (first, n)]
    ctx.transitions += len(seq) - 1
    return sequences(ctx, [(seq, "drop")])


PARTS = {"py": "raw", "seq": "raw", "v1": "raw", "v3": "raw", "h5": "raw", "thread": "threaded", "multi": "threaded", "load": "threaded", "dark": "raw", "com0": "com", "com1": "com", "convert": "raw",
         "bin": "sparse", "dense": "sparse", "slice": "sparse", "vdf": "sparse", "mask": "sparse", "radial": "sparse", "sum": "sparse"}


def part_of(name):
    p = name.split("/")[0].split("-")[0]
    return PARTS.get(p, p)


def do_pairs(ctx, first):
    """Every other call of the same part after this one, in groups"""
    names = [n for n in pool() if part_of(n) == part_of(first)]
    groups = [names[i:i + 8] for i in range(0, len(names), 8)]
    ctx.transitions += 14 * len(groups)
    return sequences(ctx, [([x for n in g for x in (first, n)], mode) for g in groups for mode in ("keep", "spoil")])


def do_triples(ctx, family, part):
    names = [n for n, p in pool().items() if p[0] == family or part and p[0].split("-")[0] == family]
    return sequences(ctx, [(list(s), mode) for s in itertools.product(names, repeat=3) if part or len(set(s)) < 3 or set(s) <= set(names[:5]) for mode in ("drop", "spoil")])


# ------------------------------------------------------------------ two readers at the same time
KINDS = {"py": ["py", 2], "h5": ["h5", "positions"], "v1": ["v1", 2], "v3": ["v3", 2], "seq4": ["seq", 4], "seq5": ["seq", 5], "thread": ["thread", 5, 2], "multi-pass": ["multi-pass", 5, 2]}
KINDS["py1"] = ["py", 1]
LISTS = {"sequential": [["read", "read", "read"], ["read", "reset", "read"], ["stem", "reset", "read"], ["read", "average", "count"]],
         "thread": [["count", "same", "same"]], "multi-pass": [["num", "load0", "load3"], ["load3", "count", "load0"], ["count", "load3", "count"]]}


def lists(kind):
    return LISTS.get(kind, LISTS["sequential"])


def reader_op(r, op, dims):
    ops = reader_ops(dims, (-1, -1), ([0, 2], [3, 6]))
    if op == "read":
        b = r.read()
        return [None] if b is None else [list(b.header.image_numbers), list(b.header.scan_dimensions), b.data]
    if op == "reset":
        r.reset()
        return []
    if op == "num":
        return [r.num_frames_per_scan, list(r.scan_shape)]
    if op.startswith("load"):
        return [b.data for b in r.read_frames(int(op[4:]))]
    if op == "same":
        return []
    return ops[op](r)


def two(kinds, todo, order):
    """Runs the operations of the two readers in this order; returns what each operation gave"""
    global _slot
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rs = []
        dims = [(3, 2), (2, 3)]
        for i, k in enumerate(kinds):
            _slot = f"r{i}"
            rs.append(None if k is None else reader_of(KINDS[k], i, dims[i], TWICE if i and k == "multi-pass" else c16.FULL))
        out, at, kept = [[], []], [0, 0], []
        for i in order:
            res = reader_op(rs[i], todo[i][at[i]], dims[i])
            at[i] += 1
            kept.append((i, len(out[i]), res))
            out[i].append(canon(res))
        for i, n, res in kept:
            if canon(res) != out[i][n]:
                return ("changed", i, n)
        return ("ok", out)


_alone = {}


def do_two(ctx, a, b):
    start()
    for la, lb in itertools.product(lists(a), lists(b)):
        want = []
        for i, (k, l) in enumerate(((a, la), (b, lb))):
            key = (i, k, tuple(l))
            if key not in _alone:
                _alone[key] = forked(lambda: two([k, None] if i == 0 else [None, k], [l, l], [i] * len(l)))
            r = _alone[key]
            if r[0] != "ok":
                return f"{k} {l} alone: {r}"
            want.append(r[1][i])
        for places in itertools.combinations(range(6), 3):
            order = [0 if i in places else 1 for i in range(6)]
            r = forked(lambda: two([a, b], [la, lb], order))
            ctx.step((a, b, tuple(la), tuple(lb), tuple(order)))
            what = f"reader 0 ({a}): {la}, reader 1 ({b}): {lb}, in the order {order}"
            if r[0] == "changed":
                return f"{what}: the result of operation {r[2]} of reader {r[1]} changed later"
            if r[0] != "ok":
                return f"{what}: {r[1]}"
            for i in range(2):
                for n in range(3):
                    if r[1][i][n] != want[i][n]:
                        return f"{what}: operation {n} of reader {i} gave {show(r[1][i][n])}, alone it gives {show(want[i][n])}"
    return None


def cases(tier):
    out = [[kind, n] for n in pool() for kind in ("walk", "pairs")]
    fam = sorted({p[0] for p in pool().values()})
    out += [["triples", f, False] for f in fam]
    if tier == "thorough":
        out += [["triples", f, True] for f in sorted({f.split("-")[0] for f in fam if "-" in f})]
    out += [["two", a, b] for a in KINDS for b in KINDS]
    return out


def run_case(case, ctx):
    return globals()["do_" + case[0]](ctx, *case[1:])
