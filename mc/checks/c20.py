"""C20: indexing a SparseArray equals indexing its dense form (all index expressions of a bounded grammar)."""
import itertools
import numpy as np
from mc import sparse_ref as R

NEEDS_PLAIN = True
PROPERTY = "C20"
BOUNDS = {"quick": "scan shapes (2,3) and (3,); frame shapes (2,3),(3,2); 1-2 frames per position; up to 17 index atoms per axis, all combinations on scan x frame axes (atoms on one side full product, on the other side reduced); 2-D masks, alone, with indices and with an Ellipsis; arrays of 3 element types",
          "thorough": "as quick with the full product of all atoms on all four axes"}
ASSUMPTIONS = ["index atoms are drawn from the listed alphabet", "element type of the dense form does not influence which element is selected"]


def atoms(n, full=True):
    a = [0, -1, ["s", None, None, None], ["s", 1, None, None], ["s", None, None, -1], ["a", [n - 1, 0]], ["b", [i == 0 for i in range(n)]]]
    if full:
        a += [1, n, -n - 1, ["s", None, None, 2], ["s", 0, 0, None], ["s", -2, None, None], ["a", [0, 0]], ["a", [-1]], ["l", [n - 1, 0]],
              ["b", [False] * n], ["a", []], ["i", 1]]
    return a


def decode(x):
    if isinstance(x, int):
        return x
    if x == "...":
        return Ellipsis
    if x == "None":
        return None
    k = x[0]
    if k == "s":
        return slice(x[1], x[2], x[3])
    if k == "a":
        return np.array(x[1], dtype=np.int64)
    if k == "l":
        return list(x[1])
    if k == "b":
        return np.array(x[1], dtype=bool)
    if k == "i":
        return np.int64(x[1])
    raise ValueError(x)


ARRAYS = [((2, 3), (2, 3), 2, "mixed"), ((2, 3), (3, 2), 1, "mixed"), ((3,), (2, 3), 2, "mixed")]
TYPES = [np.uint32, np.float32, np.int16]


def masks2d(shape):
    n = shape[0] * shape[1]
    out = [["b", np.reshape([(m >> i) & 1 == 1 for i in range(n)], shape).tolist()] for m in range(1 << n)]
    return out


def cases(tier):
    out = []
    for ai, (ss, fs, nf, kind) in enumerate(ARRAYS):
        scan_full = list(itertools.product(*[atoms(n) for n in ss]))
        scan_red = list(itertools.product(*[atoms(n, False) for n in ss]))
        frame_full = list(itertools.product(*[atoms(n) for n in fs]))
        frame_red = list(itertools.product(*[atoms(n, False) for n in fs]))
        # shorter index tuples
        short = [()] + [(a,) for a in atoms(ss[0])] + list(scan_full) + [s + (f,) for s in scan_red for f in atoms(fs[0])]
        if len(ss) == 2:
            # 2-D boolean masks over the scan (all of them), alone and followed by frame indices
            short += [(m,) for m in masks2d(ss)] + [(m,) + f for m in masks2d(ss)[::5] for f in frame_red]
            short += [(["a", [[0, 1], [1, 0]]],), (["b", [[True, False], [False, True]]],)]     # unsupported
        # 2-D boolean masks over the frame
        full_scan = tuple(["s", None, None, None] for _ in ss)
        short += [full_scan + (m,) for m in masks2d(fs)] + [s + (m,) for s in scan_red for m in masks2d(fs)[::9]]
        short += [full_scan + (["a", [[0, 1], [1, 0]]],)]
        # Ellipsis in every place, and an excess index
        for f in frame_red:
            short += [("...",) + f, ("...", f[1]), full_scan + ("...", f[1]), full_scan + f + ("...",), (0, "...", f[1]), full_scan[:1] + ("...",) + f[1:]]
        short += [("...",), ("...", "..."), full_scan + (0, 0, 0)]
        # ... and next to 2-D boolean masks
        for m in masks2d(ss)[::7] if len(ss) == 2 else ():
            short += [(m, "..."), ("...", m) + (["s", None, None, None],) * 2, (m, "...", 1), (m, 0, "..."), (m, "...", ["s", None, None, -1], ["a", [0]])]
        for m in masks2d(fs)[::7]:
            short += [("...", m), (0, "...", m), full_scan + ("...", m), full_scan + (m, "...")]
        prod = set()
        if tier == "thorough":
            long = [s + f for s in scan_full for f in frame_full]
        else:
            long = [s + f for s in scan_full for f in frame_red] + [s + f for s in scan_red for f in frame_full]
        seen = set()
        for idx in short + long:
            k = repr(idx)
            if k in seen:
                continue
            seen.add(k)
            for sparse in (True, False):
                out.append([ai, sparse, list(idx)])
    out.sort(key=lambda c: len(c[2]))
    return out


def expand_ellipsis(idx, ndim):
    """numpy's meaning of Ellipsis, on the decoded tuple; None if there are several."""
    pos = [i for i, x in enumerate(idx) if x is Ellipsis]
    if not pos:
        return idx
    if len(pos) > 1:
        return None
    used = sum(x.ndim if isinstance(x, np.ndarray) and x.dtype == bool else 1 for x in idx if x is not Ellipsis)
    return idx[:pos[0]] + (slice(None),) * (ndim - used) + idx[pos[0] + 1:]


def split(idx, sdim):
    """The part of the index that addresses the scan axes, and the part that addresses the frame axes."""
    n, k = 0, 0
    while k < len(idx) and n < sdim:
        x = idx[k]
        n += x.ndim if isinstance(x, np.ndarray) and x.dtype == bool else 1
        k += 1
    return idx[:k], idx[k:]


def is_adv(x):
    return isinstance(x, (np.ndarray, list))


def run_case(case, ctx):
    from stempy.io.sparse_array import SparseArray
    ai, sparse, raw = case
    ss, fs, nf, kind = ARRAYS[ai]
    events = R.pattern(kind, int(np.prod(ss)), nf, fs[0] * fs[1])
    dense = R.dense(events, ss, fs)
    arr = SparseArray(R.make_data(events), ss, fs, sparse_slicing=sparse, allow_full_expand=True, dtype=TYPES[ai])
    idx = tuple(decode(x) for x in raw)

    unsupported = any(x is None for x in idx)
    want, err = None, None
    try:
        full = expand_ellipsis(idx, len(ss) + 2)
        if full is None or unsupported:
            raise IndexError("not supported")
        sc, fr = split(full, len(ss))
        if len(fr) > 2:
            raise IndexError("too many")
        if any(is_adv(x) for x in sc) and any(is_adv(x) for x in fr):
            unsupported = True
        if any(isinstance(x, np.ndarray) and x.ndim == 2 and x.dtype != bool for x in full):
            unsupported = True
        part = dense[sc]
        lead = part.ndim - 2
        want = part[(slice(None),) * lead + fr]
    except IndexError as e:
        err = e
    key = idx if len(idx) != 1 else idx[0]
    try:
        got = arr[key] if raw else arr[()]
    except Exception as e:
        ctx.step(("raises", type(e).__name__))
        if err is not None or unsupported:
            return None
        return f"index {raw} on scan {ss} frame {fs}: raised {type(e).__name__}: {e}; the dense array gives shape {want.shape}"
    if err is not None:
        return f"index {raw} on scan {ss} frame {fs}: the dense array raises {err!r}, the sparse array returned {type(got).__name__} of shape {getattr(got, 'shape', None)}"
    if isinstance(got, SparseArray):
        if tuple(got.shape) != want.shape:
            return f"index {raw} on scan {ss} frame {fs}: shape {tuple(got.shape)}, dense gives {want.shape}"
        val = R.expand(got)
        own = got.to_dense()
        if not R.same(own, want):
            return f"index {raw} on scan {ss} frame {fs}: to_dense() of the result differs\n{own}\nexpected\n{want}"
    else:
        val = np.asarray(got)
    ctx.step((want.shape, want.tobytes()))
    if np.dtype(got.dtype) != TYPES[ai] or isinstance(got, SparseArray) and own.dtype != TYPES[ai]:
        return f"index {raw} on scan {ss} frame {fs} (sparse_slicing={sparse}): element type {got.dtype} instead of that of the array ({np.dtype(TYPES[ai])})"
    if not R.same(val, want):
        return f"index {raw} on scan {ss} frame {fs} (sparse_slicing={sparse}): got\n{val}\nexpected\n{want}"
    # the indexed array is unchanged
    if tuple(arr.shape) != tuple(ss) + tuple(fs) or not R.same(R.expand(arr), dense):
        return f"index {raw}: indexing changed the array"
    if isinstance(got, SparseArray) and got.data.size:
        # ... and is independent of the result
        for i in range(got.data.shape[0]):
            for j in range(got.data.shape[1]):
                if got.data[i, j].size:
                    got.data[i, j][...] = 0
        if not R.same(R.expand(arr), dense):
            return f"index {raw}: the result shares event storage with the indexed array"
    return None
