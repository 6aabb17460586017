"""C24: electron-counted data survives write_to_hdf5 / from_hdf5; version 1 and 2 files load to the same events."""
import itertools, os, shutil, tempfile
import numpy as np
from mc import sparse_ref as R

NEEDS_PLAIN = True
PROPERTY = "C24"
BOUNDS = {"quick": "round trip: every content of (scan, frame, frames/position) (2,)x(1,2)x1, (1,2)x(2,1)x2, (2,2)x(1,2)x1, (3,1)x(1,2)x1, structured contents on 5 more shapes, 5 large arrays (real size, indices up to 2^32 - 1), 6 metadata dicts, kept or dropped fly-back column; "
                   "version 2 files: every sequence of up to 4 rows over the positions of 5 scan shapes with 3 row contents each; version 1 files: every multiset row (multiplicity <= 3) for 1-4 positions of 2 pixels and up to 300 copies of a pixel, with and without the version attribute; saving onto existing files of versions 1, 2 and 3",
          "thorough": "as quick, version 2 files up to 5 rows, all contents of (2,2)x(1,2)x2"}
ASSUMPTIONS = ["the HDF5 library stores what it is given", "the events of a frame are unsigned 32-bit indices"]

META = [{}, {"a": 1}, {"electron_counting": {"background_threshold": 3.25, "threshold_calculated": True, "n": -4}},
        {"s": "text", "deep": {"deeper": {"v": [1, 2, 3]}, "w": 2.5}}, {"empty": {}}, {"0": {"0": {"x": 0}}, "y": "", "arr": [[1.5, 2.5], [3.5, 4.5]]}]

_dir = None


def tmp():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _dir = (os.getpid(), tempfile.mkdtemp(prefix="mc24_", dir=base))
        import atexit
    return _dir[1]


def cases(tier):
    out = []
    ex = [((2,), (1, 2), 1), ((1, 2), (2, 1), 2), ((2, 2), (1, 2), 1), ((3, 1), (1, 2), 1)]
    if tier == "thorough":
        ex.append(((2, 2), (1, 2), 2))
    for ss, fs, nf in ex:
        for n, ev in enumerate(R.all_events(int(np.prod(ss)), nf, int(np.prod(fs)))):
            out.append(["rt", ss, fs, nf, ev, n % len(META)])
    for ss, fs, nf in [((2, 3), (3, 2), 2), ((3, 2), (2, 3), 3), ((4,), (2, 2), 2), ((1, 4), (1, 3), 1), ((3, 3), (2, 2), 2)]:
        for kind in ("empty", "mixed", "full", "one", "corner"):
            for m in range(len(META)):
                out.append(["rt", ss, fs, nf, R.pattern(kind, int(np.prod(ss)), nf, int(np.prod(fs))), m])
    depth = 5 if tier == "thorough" else 4
    for ss in [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + ([(2, 3)] if tier == "thorough" else []):
        n = int(np.prod(ss))
        for k in range(1, depth + 1):
            for pos in itertools.product(range(n), repeat=k):
                for c in range(3):
                    rows = [[[i % 4], [], [0, 3]][(i + c) % 3] if c else [(i + p) % 4, 4] for i, p in enumerate(pos)]
                    out.append(["v2", ss, list(pos), [sorted(set(r)) for r in rows]])
    for i in range(len(LARGE)):
        out.append(["large", i])
    for ss, counts in [((1, 2), (300, 1)), ((2, 2), (0, 129, 257, 2)), ((1, 1), (260,))]:
        for attr in (0, 1):
            out.append(["v1", ss, attr, list(counts)])
    for ss in [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2)]:
        n = int(np.prod(ss))
        msets = [[0] * a + [1] * b for a in range(4 if n < 4 else 3) for b in range(4 if n < 3 else 2)]
        for rows in itertools.product(msets, repeat=n):
            for attr in ((0, 1) if n < 3 else (0,)):
                out.append(["v1", ss, attr, [list(r) for r in rows]])
    for v in (1, 2, 3):
        for m in (0, 2):
            out.append(["onto", v, m])
    return out


def write_old(path, version, ss, fs, positions, rows):
    import h5py
    with h5py.File(path, "w") as f:
        if version:
            f.attrs["version"] = version
        g = f.create_group("electron_events")
        sp = g.create_dataset("scan_positions", data=np.array(positions, dtype=np.int64))
        sp.attrs["Nx"], sp.attrs["Ny"] = ss[1], ss[0]
        fr = g.create_dataset("frames", (len(rows),), dtype=h5py.special_dtype(vlen=np.uint32))
        fr.attrs["Nx"], fr.attrs["Ny"] = fs
        for i, r in enumerate(rows):
            fr[i] = np.array(r, dtype=np.uint32)


def same_meta(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_meta(a[k], b[k]) for k in a)
    if isinstance(b, dict):
        return False
    return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))


def frames_of(arr):
    return [[sorted(int(x) for x in fr) for fr in pos] for pos in arr.data]


def crop(lst, ss):
    """Drops the last column of the scan from a per-position list."""
    return [x for i, x in enumerate(lst) if i % ss[1] != ss[1] - 1], (ss[0], ss[1] - 1)


def check_loaded(arr, want_frames, ss, fs, what, ordered=True):
    if tuple(int(x) for x in arr.scan_shape) != tuple(ss) or tuple(int(x) for x in arr.frame_shape) != tuple(fs):
        return f"{what}: loaded shape {tuple(arr.scan_shape)} + {tuple(arr.frame_shape)}, expected {ss} + {fs}"
    got = frames_of(arr)
    if got != want_frames:
        return f"{what}: loaded frames {got}, expected {want_frames}"
    ev = [f for f in want_frames]
    if not R.same(arr.to_dense(), R.dense(ev, ss, fs)):
        return f"{what}: the loaded array expands to something else"
    for pos in arr.data:
        for fr in pos:
            if not np.issubdtype(fr.dtype, np.integer):
                return f"{what}: a loaded frame has dtype {fr.dtype}"
    return None


def run_case(case, ctx):
    from stempy.io.sparse_array import SparseArray
    import stempy.io as sio
    path = os.path.join(tmp(), "f.h5")
    if os.path.exists(path):
        os.unlink(path)
    try:
        return {"rt": roundtrip, "v2": old2, "v1": old1, "onto": onto, "large": large}[case[0]](case, ctx, SparseArray, sio, path)
    finally:
        shutil.rmtree(tmp(), ignore_errors=True)
        os.makedirs(tmp(), exist_ok=True)
        global _dir
        os.rmdir(_dir[1])
        _dir = None


def roundtrip(case, ctx, SparseArray, sio, path):
    _, ss, fs, nf, ev, m = case
    ss, fs = tuple(ss), tuple(fs)
    meta = META[m]
    arr = SparseArray(R.make_data(ev), ss, fs, metadata=meta)
    if len(ev) % 2:
        arr.write_to_hdf5(path)
    else:
        sio.save_electron_counts(path, arr)
    if frames_of(arr) != ev or tuple(arr.scan_shape) != ss:
        return f"saving changed the array {case}"
    back = SparseArray.from_hdf5(path) if m % 2 else sio.load_electron_counts(path)
    ctx.step(("rt", ss, fs, repr(ev)))
    msg = check_loaded(back, ev, ss, fs, f"round trip of scan {ss} frame {fs} events {ev}")
    if msg:
        return msg
    if back.data.shape != (len(ev), nf):
        return f"round trip of scan {ss} frame {fs} events {ev}: data of shape {back.data.shape}"
    if not same_meta(meta, back.metadata):
        return f"metadata {meta} was read back as {back.metadata}"
    # a second generation and the array kept from before
    p2 = path + "2"
    back.write_to_hdf5(p2)
    again = SparseArray.from_hdf5(p2, dtype=np.float32, sparse_slicing=False, allow_full_expand=True)
    ctx.step(("rt2", ss, fs, repr(ev)))
    msg = check_loaded(again, ev, ss, fs, f"second round trip of scan {ss} frame {fs} events {ev}")
    if msg or again.dtype != np.float32 or again.sparse_slicing or not again.allow_full_expand:
        return msg or "options passed to from_hdf5 are ignored"
    if not same_meta(meta, again.metadata):
        return f"metadata {meta} was read back as {again.metadata} after two round trips"
    if len(ss) == 2 and ss[1] > 1:
        w, ns = crop(ev, ss)
        for how in ("method", "function"):
            c = SparseArray.from_hdf5(path, keep_flyback=False) if how == "method" else sio.load_electron_counts(path, keep_flyback=False)
            ctx.step(("crop", ss, fs, repr(w)))
            msg = check_loaded(c, w, ns, fs, f"load without the fly-back column, scan {ss} frame {fs} events {ev}")
            if msg:
                return msg
            if not same_meta(meta, c.metadata):
                return f"metadata {meta} was read back as {c.metadata} without the fly-back column"
    return None


LARGE = [((1, 2), (576, 576), [[0, 575, 65535, 65536, 331775], [331775]]), ((2, 2), (1, 1 << 20), [[1 << 19], [], [0, (1 << 20) - 1], [65536]]),
         ((3,), (65536, 65536), [[0, 1 << 31, (1 << 32) - 1], [(1 << 31) - 1], []]), ((300, 300), (576, 576), None), ((1, 70000), (4, 4), None)]


def large(case, ctx, SparseArray, sio, path):
    """Pixel indices of any size, scans of the real size"""
    ss, fs, ev = LARGE[case[1]]
    if ev is None:
        px = fs[0] * fs[1]
        ev = [[i % px, px - 1] if i % 7 == 0 and i % px != px - 1 else [i * 31 % px] if i % 3 else [] for i in range(int(np.prod(ss)))]
    want = [[sorted(x)] for x in ev]
    SparseArray(R.make_data([[x] for x in ev]), ss, fs).write_to_hdf5(path)
    for keep in (True, False) if len(ss) == 2 else (True,):
        w, ns = (want, ss) if keep else crop(want, ss)
        arr = SparseArray.from_hdf5(path, keep_flyback=keep)
        ctx.step(("large", case[1], keep))
        if tuple(arr.scan_shape) != ns or tuple(arr.frame_shape) != fs:
            return f"large scan {ss} frame {fs}: loaded shape {arr.shape}"
        got = frames_of(arr)
        if got != w:
            i = next((i for i, (a, b) in enumerate(zip(got, w)) if a != b), "?")
            return f"large scan {ss} frame {fs}, keep_flyback={keep}: position {i} loads to {got[i] if i != '?' else len(got)}"
    return None


def padded(per_pos):
    n = max(len(p) for p in per_pos)
    return [p + [[]] * (n - len(p)) for p in per_pos]


def old2(case, ctx, SparseArray, sio, path):
    _, ss, pos, rows = case
    ss, fs = tuple(ss), (2, 3)
    write_old(path, 2, ss, fs, pos, rows)
    per = [[] for _ in range(int(np.prod(ss)))]
    for p, r in zip(pos, rows):
        per[p].append(r)
    want = padded(per)
    ctx.step(("v2", ss, repr(want)))
    msg = check_loaded(SparseArray.from_hdf5(path), want, ss, fs, f"version 2 file, scan {ss}, rows {rows} at positions {pos}")
    if msg:
        return msg
    if ss[1] > 1:
        w, ns = crop(want, ss)
        ctx.step(("v2c", ss, repr(w)))
        return check_loaded(SparseArray.from_hdf5(path, keep_flyback=False), w, ns, fs,
                            f"version 2 file without the fly-back column, scan {ss}, rows {rows} at positions {pos}")
    return None


def old1(case, ctx, SparseArray, sio, path):
    _, ss, attr, rows = case
    ss, fs = tuple(ss), (1, 2)
    if rows and isinstance(rows[0], int):
        rows = [[0] * k + [1] * (k // 2) for k in rows]
    n = len(rows)
    write_old(path, attr, ss, fs, list(range(n)), rows)
    dense = np.array([[r.count(0), r.count(1)] for r in rows]).reshape(ss + fs)
    for keep in ((True, False) if ss[1] > 1 else (True,)):
        want = dense if keep else dense[:, :-1]
        arr = SparseArray.from_hdf5(path, keep_flyback=keep)
        ctx.step(("v1", keep, ss, want.tobytes()))
        what = f"version 1 file, scan {ss}, rows {rows}, keep_flyback={keep}"
        if tuple(int(x) for x in arr.shape) != want.shape:
            return f"{what}: loaded shape {arr.shape}"
        if not R.same(R.expand(arr), want):
            return f"{what}: loaded counts {R.expand(arr).tolist()}"
    return None


def onto(case, ctx, SparseArray, sio, path):
    _, v, m = case
    ss, fs = (1, 2), (1, 2)
    if v == 3:
        ev = [[[0], [1]], [[], [0, 1]]]
        SparseArray(R.make_data(ev), ss, fs, metadata=META[m]).write_to_hdf5(path)
    else:
        write_old(path, v if m else (0 if v == 1 else 2), ss, fs, [0, 1] if v == 1 else [0, 1, 0, 1], [[0, 0], [1]] if v == 1 else [[0], [], [1], [0, 1]])
    before = SparseArray.from_hdf5(path)
    other = SparseArray(R.make_data([[[0, 1]], [[0, 1]], [[]], [[1]]]), (2, 2), (1, 2), metadata={"x": 9})
    raised = False
    try:
        other.write_to_hdf5(path)
    except Exception:
        raised = True
    after = SparseArray.from_hdf5(path)
    ctx.step(("onto", v, raised))
    if raised:
        if frames_of(after) != frames_of(before) or tuple(after.shape) != tuple(before.shape) or not same_meta(before.metadata, after.metadata):
            return f"saving onto an existing version {v} file failed and changed what the file loads to: {frames_of(after)} instead of {frames_of(before)}"
        return None
    if frames_of(after) != frames_of(other) or tuple(after.shape) != tuple(other.shape):
        return f"saving onto an existing version {v} file reported success but loads to {frames_of(after)}"
    return None
