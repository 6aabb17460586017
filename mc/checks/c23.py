"""C23: every sequence of operations on a SparseArray, on the array and its earlier copies, against the dense array."""
import copy, os, shutil, tempfile
import numpy as np
from mc import sparse_ref as R
from mc.checks.c05 import ref_stem

NEEDS_PLAIN = True
PROPERTY = "C23"
_TEXT = "every sequence of operations (slicing, binning in place and by copy, reshaping, shape assignment, ravelling, deep copies, saving and loading, replacing frames, writing into their events, refused operations, continuing with an earlier copy): {}; sequences that lead to the same content with the same shared memory are continued once"
BOUNDS = {"quick": _TEXT.format("up to 2 of 35 operations from 8 arrays, up to 3 of 35 from 3 arrays, up to 4 of 12 from 3 arrays"),
          "thorough": _TEXT.format("up to 3 of 35 operations from 8 arrays, up to 5 of 12 from 8 arrays")}
ASSUMPTIONS = ["arrays reached by slicing keep two frame axes", "metadata of derived arrays is not judged", "the places of a result that index the same position of the original (a[[0, 0]]) may share their events"]
CASE_TIMEOUT = 300

# scan shape, frame shape, frames per position, content, element type of the dense form
ARRAYS = [((2, 4), (4, 2), 1, "mixed", "uint32"), ((2, 2), (4, 6), 2, "mixed", "uint16"), ((4, 2), (2, 2), 2, "full", "uint32"), ((4,), (2, 4), 2, "mixed", "uint8"),
          ((2, 6), (3, 2), 1, "one", "uint64"), ((1, 4), (2, 2), 3, "corner", "int32"), ((2, 2), (6, 2), 2, "empty", "float32"), ((6,), (2, 6), 1, "mixed", "uint32")]

_dir = None


def setup():
    global _dir
    import atexit
    _dir = tempfile.mkdtemp(prefix="mc23_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, True))


class State:
    """cur: the array in use with its dense form; kept: (array, dense form, flags) of those it was derived from"""

    def __init__(self, ai):
        from stempy.io.sparse_array import SparseArray
        ss, fs, nf, kind, dtype = ARRAYS[ai]
        ev = R.pattern(kind, int(np.prod(ss)), nf, int(np.prod(fs)))
        flags = dict(sparse_slicing=True, allow_full_expand=bool(ai % 2))
        self.flags = (np.dtype(dtype), True, bool(ai % 2))
        self.cur = SparseArray(R.make_data(ev), ss, fs, dtype=np.dtype(dtype), **flags)
        self.dense = R.dense(ev, ss, fs)
        self.kept = []
        self.note = None

    def derive(self, new, dense):
        if new is self.cur:
            self.note = "the operation returned the array itself instead of a new one"
        self.kept.append((self.cur, self.dense))
        self.cur, self.dense = new, np.array(dense)

    def in_place(self, returned, dense):
        if returned is not self.cur:
            self.note = "the operation in place did not return the array"
        self.dense = np.array(dense)

    def key(self):
        arrays = [self.cur] + [a for a, _ in self.kept]
        ids, content = {}, []
        for a in arrays:
            content.append((tuple(map(int, a.scan_shape)), tuple(map(int, a.frame_shape)), [[(ids.setdefault(id(f), len(ids)), f.dtype.char, f.tobytes()) for f in row] for row in a.data]))
        shared = [(i, j) for i in range(len(arrays)) for j in range(i) if np.shares_memory(arrays[i].data, arrays[j].data)]
        return repr((content, shared))


def bin_dense(d, axes, f):
    shape = []
    for i, n in enumerate(d.shape):
        shape += [n // f, f] if i in axes else [n]
    at, red = 0, []
    for i in range(d.ndim):
        if i in axes:
            red.append(at + 1)
            at += 2
        else:
            at += 1
    return d.reshape(shape).sum(axis=tuple(red))


def slicer(scan, frame):
    """scan: indices of the scan axes for one and for two axes"""
    def op(s):
        n = len(s.cur.scan_shape)
        idx = scan(s.cur.scan_shape)
        if idx is None:
            return False
        idx = idx + (slice(None),) * (n - len(idx)) + frame if frame else idx
        if any(isinstance(x, np.ndarray) for x in idx) and s.dense.shape[-1] < 2:
            return False
        d = s.dense[idx]
        if d.ndim < 3 or d.size == 0:
            return False
        new = s.cur[idx if len(idx) > 1 else idx[0]]
        s.derive(new, d)
    return op


def mask(s):
    shape = tuple(s.cur.scan_shape)
    m = (np.arange(int(np.prod(shape))) % 3 != 1).reshape(shape)
    s.derive(s.cur[m], s.dense[m])


def fancy(s):
    n = s.cur.scan_shape[0]
    idx = np.array([n - 1, 0])
    s.derive(s.cur[idx], s.dense[idx])


def binning(which, f, in_place):
    def op(s):
        n = len(s.cur.scan_shape)
        axes = range(n) if which == "scan" else (n, n + 1)
        call = s.cur.bin_scans if which == "scan" else s.cur.bin_frames
        if any(s.dense.shape[a] % f for a in axes):
            return refused(s, lambda: call(f, in_place=in_place), ValueError)
        d = bin_dense(s.dense, axes, f)
        r = call(f, in_place=in_place)
        s.in_place(r, d) if in_place else s.derive(r, d)
    return op


def refused(s, f, kind):
    try:
        f()
    except kind:
        return None
    s.note = "an operation that is not possible was accepted"


def reshape(new, how):
    def op(s):
        n = len(s.cur.scan_shape)
        shape = new(tuple(int(x) for x in s.cur.scan_shape), tuple(int(x) for x in s.cur.frame_shape))
        if shape is None or shape == tuple(s.dense.shape):
            return False
        if how == "args":
            r = s.cur.reshape(*shape)
        elif how == "tuple":
            r = s.cur.reshape(shape)
        else:
            s.cur.shape = shape
            r = s.cur
        s.in_place(r, s.dense.reshape(shape))
    return op


def swap_scan(s, f):
    return s[::-1] + f


def other_scan(s, f):
    n = int(np.prod(s))
    return (2, n // 2) + f if n % 2 == 0 else (n, 1) + f


def other_frame(s, f):
    n = int(np.prod(f))
    return s + ((n // 2, 2) if n % 2 == 0 else (1, n))


def ravel(s):
    if len(s.cur.scan_shape) == 1:
        return False
    s.in_place(s.cur.ravel_scans(), s.dense.reshape((-1,) + s.dense.shape[-2:]))


def bad_reshape(s):
    ss, fs = tuple(s.cur.scan_shape), tuple(s.cur.frame_shape)
    refused(s, lambda: s.cur.reshape(*((ss[0] + 1,) + ss[1:]), *fs), ValueError)
    refused(s, lambda: s.cur.reshape(*ss, fs[0], fs[1] + 1), ValueError)
    refused(s, lambda: s.cur.reshape((int(np.prod(s.dense.shape)),)), ValueError)
    # as many values in all, but not in the scan
    if fs[0] % 2 == 0:
        refused(s, lambda: s.cur.reshape(ss[0] * 2, *ss[1:], fs[0] // 2, fs[1]), ValueError)


def bad_index(s):
    refused(s, lambda: s.cur[int(s.cur.scan_shape[0])], IndexError)
    refused(s, lambda: s.cur[(0,) * (s.dense.ndim + 1)], IndexError)


def deep(s):
    s.derive(copy.deepcopy(s.cur), s.dense)


def saved(s):
    from stempy.io.sparse_array import SparseArray
    p = os.path.join(_dir, f"{os.getpid()}.h5")
    if os.path.exists(p):
        os.unlink(p)
    s.cur.write_to_hdf5(p)
    s.derive(SparseArray.from_hdf5(p, dtype=s.flags[0], sparse_slicing=s.flags[1], allow_full_expand=s.flags[2]), s.dense)


def rebuilt(s):
    from stempy.io.sparse_array import SparseArray
    a = s.cur
    s.derive(SparseArray(copy.deepcopy(a.data), a.scan_shape, a.frame_shape, dtype=a.dtype, sparse_slicing=a.sparse_slicing, allow_full_expand=a.allow_full_expand), s.dense)


def edit(at):
    """Other events in the first frame of a position"""
    def op(s):
        px = int(np.prod(s.cur.frame_shape))
        n = s.cur.num_scans
        p = at % n
        old = s.cur.data[p, 0]
        new = np.setdiff1d(np.arange(px), old).astype(np.uint32)
        s.cur.data[p, 0] = new
        flat = np.array(s.dense).reshape(n, px)
        flat[p, old.astype(np.int64)] -= 1
        flat[p, new] += 1
        s.dense = flat.reshape(s.dense.shape)
    return op


def write(at):
    """Other values written into the events of a frame"""
    def op(s):
        px = int(np.prod(s.cur.frame_shape))
        n = s.cur.num_scans
        p = at % n
        events = s.cur.data[p, 0]
        if not len(events) or len(events) == px or sum(np.shares_memory(events, f) for row in s.cur.data for f in row) > 1:
            return False
        new = (events.astype(np.int64) + 1) % px
        flat = np.array(s.dense).reshape(n, px)
        flat[p, events.astype(np.int64)] -= 1
        flat[p, new] += 1
        events[:] = new
        s.dense = flat.reshape(s.dense.shape)
    return op


def back(i):
    """Continue with an earlier array"""
    def op(s):
        if not s.kept:
            return False
        a, d = s.kept.pop(i)
        s.kept.append((s.cur, s.dense))
        s.cur, s.dense = a, d
    return op


def dense_slices(s):
    """Dense results in between, through the flag"""
    s.cur.sparse_slicing = False
    d = s.cur[0]
    s.cur.sparse_slicing = True
    if not R.same(d, s.dense[0]):
        s.note = f"[0] is {d.tolist()} instead of {s.dense[0].tolist()}"
    d[...] = 7                          # the result is the caller's


S = slice
OPS = [
    ("a[:]", slicer(lambda ss: (S(None),), ())),
    ("a[1:]", slicer(lambda ss: (S(1, None),), ())),
    ("a[::-1]", slicer(lambda ss: (S(None, None, -1),), ())),
    ("a[0]", slicer(lambda ss: (0,) if len(ss) > 1 else None, ())),
    ("a[:, ::2]", slicer(lambda ss: (S(None), S(None, None, 2)) if len(ss) > 1 else (S(None, None, 2),), ())),
    ("a[..., :2, 1:]", slicer(lambda ss: (), (S(None, 2), S(1, None)))),
    ("a[..., ::-1, :]", slicer(lambda ss: (), (S(None, None, -1), S(None)))),
    ("a[:2, ..., ::2, ::-1]", slicer(lambda ss: (S(None, 2),), (S(None, None, 2), S(None, None, -1)))),
    ("a[..., [1, 0, 1]]", slicer(lambda ss: (), (S(None), np.array([1, 0, 1])))),
    ("a[mask]", mask),
    ("a[[-1, 0]]", fancy),
    ("bin_scans(2)", binning("scan", 2, False)),
    ("bin_scans(2, in place)", binning("scan", 2, True)),
    ("bin_scans(3)", binning("scan", 3, False)),
    ("bin_scans(1, in place)", binning("scan", 1, True)),
    ("bin_frames(2)", binning("frame", 2, False)),
    ("bin_frames(2, in place)", binning("frame", 2, True)),
    ("bin_frames(3)", binning("frame", 3, False)),
    ("bin_frames(1)", binning("frame", 1, False)),
    ("reshape(swapped scan)", reshape(swap_scan, "args")),
    ("reshape(2, n/2)", reshape(other_scan, "tuple")),
    ("shape = frame (n/2, 2)", reshape(other_frame, "set")),
    ("ravel_scans", ravel),
    ("bad reshape", bad_reshape),
    ("bad index", bad_index),
    ("deepcopy", deep),
    ("save, load", saved),
    ("rebuilt", rebuilt),
    ("edit first", edit(0)),
    ("edit last", edit(-1)),
    ("write into first", write(0)),
    ("write into last", write(-1)),
    ("earlier copy", back(-1)),
    ("earliest copy", back(0)),
    ("dense [0]", dense_slices),
]
NAMES = [n for n, _ in OPS]


def observe(s, deep):
    """What the array says about itself, and the earlier ones"""
    if s.note:
        return s.note
    a, d = s.cur, s.dense
    if (np.dtype(a.dtype), a.sparse_slicing, a.allow_full_expand) != s.flags:
        return f"the settings are {(a.dtype, a.sparse_slicing, a.allow_full_expand)} instead of {s.flags}"
    try:
        if tuple(a.shape) != d.shape:
            return f"the shape is {a.shape} instead of {d.shape}"
        e = R.expand(a)
    except AssertionError as x:
        return str(x)
    if not R.same(e, d):
        return f"the events are {e.tolist()} instead of {d.tolist()}"
    for i, (b, bd) in enumerate(s.kept):
        try:
            e = R.expand(b)
        except AssertionError as x:
            return f"an earlier copy was changed: {x}"
        if tuple(b.shape) != bd.shape or not R.same(e, bd):
            return f"an earlier copy of {bd.shape} was changed from {bd.tolist()} to {b.shape} {e.tolist()}"
    if not deep:
        return None
    n = len(a.scan_shape)
    if a.ndim != d.ndim or a.num_scans != int(np.prod(d.shape[:n])) or a.num_frames_per_scan != a.data.shape[1] or a.scan_axes + a.frame_axes != tuple(range(d.ndim)):
        return f"shape {a.shape}, ndim {a.ndim}, {a.num_scans} positions"
    f = a.to_dense()
    if f.dtype != s.flags[0] or not R.same(f, d):
        return f"to_dense() is {f.tolist()} ({f.dtype}) instead of {d.tolist()}"
    for axes in (a.scan_axes, a.frame_axes):
        for name in ("sum", "max", "min"):
            r = getattr(a, name)(axes)
            if not R.same(r, getattr(d, name)(axis=axes)):
                return f"{name}({axes}) is {np.asarray(r).tolist()} instead of {getattr(d, name)(axis=axes).tolist()}"
    if n == 2:
        from stempy.image import create_stem_images
        frames = d.reshape((-1,) + d.shape[2:])
        pairs = [(0, 2), (1, 3), (0, 20)]
        got = create_stem_images(a, [p for p, _ in pairs], [p for _, p in pairs])
        want = 65535 * ref_stem(frames, range(len(frames)), d.shape[1::-1], pairs)
        if not R.same(got, want.reshape((3,) + d.shape[:2])):
            return f"STEM images {np.asarray(got).tolist()} instead of {want.tolist()}"
    return None


def replay(ai, path):
    s = State(ai)
    for k in path:
        if OPS[k][1](s) is False:
            return None
    return s


# (arrays, depth, operations): all operations, and longer histories of those that share or replace something
CORE = ["a[:]", "a[1:]", "bin_scans(2)", "bin_scans(2, in place)", "bin_frames(2)", "bin_frames(2, in place)", "reshape(swapped scan)", "ravel_scans", "save, load", "edit first", "write into first", "earliest copy"]
SPACES = {"quick": [(range(8), 2, NAMES), (range(3), 3, NAMES), (range(3), 4, CORE)], "thorough": [(range(8), 3, NAMES), (range(8), 5, CORE)]}


def cases(tier):
    out = []
    for i, (arrays, depth, names) in enumerate(SPACES.get(tier, SPACES["quick"])):
        ops = [NAMES.index(n) for n in names]
        out += [[ai, i, depth, ops, []] for ai in arrays]
        out += [[ai, i, depth, ops, [k]] for k in ops for ai in arrays]
    return out


_seen = {}


def run_case(case, ctx):
    """All sequences that start with this prefix (only itself, for the empty one), breadth first"""
    ai, space, depth, ops, prefix = case
    seen = _seen.setdefault((ai, space), {})
    level = [prefix]
    while level:
        following = []
        for path in level:
            try:
                s = replay(ai, path)
                if s is None:
                    continue
                key = R_hash(s.key())
                left = depth - len(path)
                new = key not in seen
                m = observe(s, new)
            except Exception as e:
                import traceback
                return f"{ARRAYS[ai]}: {', '.join(NAMES[k] for k in path)}: {type(e).__name__} {e} {traceback.format_exc()[-600:]}"
            ctx.step(key)
            if m:
                return f"{ARRAYS[ai]}: {', '.join(NAMES[k] for k in path)}: {m}"
            if seen.get(key, -1) >= left:
                continue
            seen[key] = left
            if prefix and left > 0:
                following += [path + [k] for k in ops]
        level = following
    return None


def R_hash(text):
    import hashlib
    return hashlib.blake2b(text.encode(), digest_size=12).digest()
