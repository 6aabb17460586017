"""C21: sum / mean / min / max of a SparseArray equal those of the dense array, for all axis choices and contents."""
import itertools
import numpy as np
from mc import sparse_ref as R

NEEDS_PLAIN = True
PROPERTY = "C21"
BOUNDS = {"quick": "every event content of (scan, frame, frames/position): (2,)x(1,2)x1, (2,)x(1,2)x2, (1,2)x(2,1)x2, (2,2)x(1,2)x1, (2,1)x(2,2)x1, (1,)x(2,2)x2; plus structured contents on (2,3)x(3,2)x2 and (3,)x(2,3)x3; 300 and 65540 frames per position; a scan of 40x50 frames of 576x576; all axis subsets and spellings; dtypes uint32, uint8, int64, float32, float64",
          "thorough": "as quick plus every content of (2,2)x(1,2)x2 and (1,2)x(2,2)x2 (65536 each)"}
ASSUMPTIONS = ["counts stay far below the range of the element type (no wrap-around)"]

DTYPES = {"uint32": np.uint32, "uint8": np.uint8, "int64": np.int64, "float32": np.float32, "float64": np.float64}
OPS = ["sum", "max", "min", "mean"]


def cases(tier):
    out = []
    exhaustive = [((2,), (1, 2), 1), ((2,), (1, 2), 2), ((1, 2), (2, 1), 2), ((2, 2), (1, 2), 1), ((2, 1), (2, 2), 1), ((1,), (2, 2), 2)]
    if tier == "thorough":
        exhaustive += [((2, 2), (1, 2), 2), ((1, 2), (2, 2), 2)]
    for ss, fs, nf in exhaustive:
        for ev in R.all_events(int(np.prod(ss)), nf, int(np.prod(fs))):
            out.append([ss, fs, nf, ev, "uint32"])
    for ss, fs, nf in [((2, 3), (3, 2), 2), ((3,), (2, 3), 3), ((2, 2), (2, 2), 1)]:
        for kind in ("empty", "mixed", "full", "one", "corner"):
            ev = R.pattern(kind, int(np.prod(ss)), nf, int(np.prod(fs)))
            for dt in DTYPES:
                out.append([ss, fs, nf, ev, dt])
    for ss, fs, nf in [((2,), (1, 2), 300), ((1, 2), (2, 1), 300)]:
        for kind in ("full", "mixed"):
            for dt in ("uint32", "int64", "float32", "float64"):
                out.append([ss, fs, nf, kind, dt])
    out += [["large", "uint32"], ["large", "float64"], ["many", "uint32"]]
    return out


def large(ctx, what, dt):
    """Arrays that cannot be expanded: the real detector size, and more frames at a position than 16 bits can count"""
    from stempy.io.sparse_array import SparseArray
    ss, fs, nf = ((40, 50), (576, 576), 1) if what == "large" else ((1, 2), (1, 3), 65540)
    n, px = int(np.prod(ss)), int(np.prod(fs))
    if what == "large":
        events = {0: [[0, 5, px - 1]], 1: [[5, 65536, 331000]], 299: [[5]], 300: [[0]], 1500: [[1, 2, 3, 4, 5]], n - 1: [[5, px - 1]]}
    else:
        events = {0: [[0] if i else [0, 2] for i in range(nf)], 1: [[1]] + [[]] * (nf - 1)}
    data = np.empty((n, nf), dtype=object)
    empty = np.array([], dtype=np.uint32)
    counts = {}
    for i in range(n):
        for j in range(nf):
            data[i, j] = np.array(events[i][j], dtype=np.uint32) if i in events and events[i][j] else empty
    for i, frames in events.items():
        for fr in frames:
            for p in fr:
                counts[i, p] = counts.get((i, p), 0) + 1
    arr = SparseArray(data, ss, fs, dtype=DTYPES[dt], allow_full_expand=what == "many")
    total = sum(counts.values())
    frame, scan, fmax, smax = np.zeros(px), np.zeros(n), np.zeros(px), np.zeros(n)
    for (i, p), c in counts.items():
        frame[p] += c
        scan[i] += c
        fmax[p] = max(fmax[p], c)
        smax[i] = max(smax[i], c)
    wants = {("sum", None): total, ("mean", None): total / (n * px), ("max", None): fmax.max(), ("min", None): 0,
             ("sum", "scan"): frame.reshape(fs), ("mean", "scan"): (frame / n).reshape(fs), ("max", "scan"): fmax.reshape(fs), ("min", "scan"): np.zeros(fs),
             ("sum", "frame"): scan.reshape(ss), ("mean", "frame"): (scan / px).reshape(ss), ("max", "frame"): smax.reshape(ss), ("min", "frame"): np.zeros(ss)}
    for (op, axis), want in wants.items():
        if axis is None and what == "large":
            continue                                        # needs the expansion of the array
        got = getattr(arr, op)(axis=axis)
        ctx.step((what, op, axis))
        if np.shape(got) != np.shape(want) or not np.allclose(np.asarray(got, float), want, rtol=1e-4, atol=0):
            return f"{op}(axis={axis}) of a large array of scan {ss}, frame {fs}, {nf} frames per position ({dt}): got {got!r}, expected {want!r}"
    return None


def axis_args(ndim, sdim):
    res = [None, "scan", "frame"]
    for r in range(1, ndim + 1):
        for c in itertools.combinations(range(ndim), r):
            res.append(c)
            if r == 1:
                res.append(c[0])
                res.append(c[0] - ndim)
            if r == 2:
                res.append(tuple(reversed(c)))
                res.append(list(c))
    res.append((-2, -1))
    return res


def run_case(case, ctx):
    from stempy.io.sparse_array import SparseArray, FullExpansionDenied
    if case[0] in ("large", "many"):
        return large(ctx, *case)
    ss, fs, nf, ev, dt = case
    ss, fs = tuple(ss), tuple(fs)
    if isinstance(ev, str):
        ev = R.pattern(ev, int(np.prod(ss)), nf, int(np.prod(fs)))
    dense = R.dense(ev, ss, fs)
    dtype = DTYPES[dt]
    for allow in (True, False):
        arr = SparseArray(R.make_data(ev), ss, fs, dtype=dtype, allow_full_expand=allow)
        for ax in axis_args(len(ss) + 2, len(ss)):
            nax = arr_axis(ax, len(ss))
            special = ax is not None and sorted(x for x in nax) in (list(range(len(ss))), [len(ss), len(ss) + 1])
            if not allow and not special:
                continue
            for op in OPS:
                for extra in ({}, {"dtype": np.float64}):
                    if extra and not (allow and dt == "uint32"):
                        continue
                    want = getattr(dense, op)(axis=nax)
                    try:
                        got = getattr(arr, op)(axis=ax, **extra)
                    except Exception as e:
                        return f"{op}(axis={ax}, {extra}) on scan {ss} frame {fs} dtype {dt}, events {ev}: raised {type(e).__name__}: {e}; dense gives {want!r}"
                    ctx.step((op, np.shape(want), np.asarray(want).tobytes()))
                    if not R.close(got, want):
                        return f"{op}(axis={ax}, {extra}) on scan {ss} frame {fs} dtype {dt}, events {ev}: got {got!r}, dense gives {want!r}"
        if not R.same(R.expand(arr), dense):
            return f"reductions changed the array (scan {ss} frame {fs}, events {ev})"
    return None


def arr_axis(ax, sdim):
    if ax is None:
        return tuple(range(sdim + 2))
    if isinstance(ax, str):
        return tuple(range(sdim)) if ax == "scan" else (sdim, sdim + 1)
    if isinstance(ax, int):
        return (ax,)
    return tuple(ax)
