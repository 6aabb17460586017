"""Independent reference for electron-counted data: a plain dense numpy array of counts.

Event content is described by a plain nested list: events[position][frame] = sorted list of flat pixel indices.
"""
import itertools
import numpy as np


def make_data(events, dtype=np.uint32):
    n, f = len(events), len(events[0]) if events else 0
    data = np.empty((n, f), dtype=object)
    for i in range(n):
        for j in range(f):
            data[i, j] = np.array(events[i][j], dtype=dtype)
    return data


def dense(events, scan_shape, frame_shape, dtype=np.int64):
    out = np.zeros((len(events), int(np.prod(frame_shape))), dtype=dtype)
    for i, frames in enumerate(events):
        for fr in frames:
            for p in fr:
                out[i, p] += 1
    return out.reshape(tuple(scan_shape) + tuple(frame_shape))


def expand(sa):
    """Dense form of a SparseArray from its public attributes only (not through its own expansion code)."""
    n = int(np.prod(sa.scan_shape))
    d = sa.data
    if d.shape[0] != n:
        raise AssertionError(f"data has {d.shape[0]} positions for scan shape {sa.scan_shape}")
    px = int(np.prod(sa.frame_shape))
    out = np.zeros((n, px), dtype=np.int64)
    for i in range(n):
        for fr in d[i]:
            fr = np.asarray(fr)
            if fr.ndim != 1:
                raise AssertionError(f"frame of position {i} is not a list of events: {fr!r}")
            if fr.size and not (np.issubdtype(fr.dtype, np.integer)):
                raise AssertionError(f"events of position {i} are not integers: {fr.dtype}")
            if fr.size and (fr.min() < 0 or fr.max() >= px):
                raise AssertionError(f"event outside the frame at position {i}: {fr}")
            if len(np.unique(fr)) != len(fr):
                raise AssertionError(f"a frame of position {i} lists a pixel twice: {fr}")
            np.add.at(out[i], fr.astype(np.int64), 1)
    return out.reshape(tuple(int(x) for x in sa.scan_shape) + tuple(int(x) for x in sa.frame_shape))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def close(a, b, tol=1e-4):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


# A few event contents that cover: empty frame, full frame, overlap between the frames of a position,
# first / last pixel, empty position.
def pattern(kind, npos, nf, px):
    ev = []
    for i in range(npos):
        frames = []
        for j in range(nf):
            if kind == "empty":
                fr = []
            elif kind == "mixed":
                # every pixel set appears somewhere; position 1 has an empty first frame, the last position none at all
                if i == npos - 1 and npos > 1:
                    fr = []
                elif i == 1 and j == 0:
                    fr = []
                else:
                    fr = [p for p in range(px) if ((i + 2) * (p + 1) + j * (p % 2)) % 3 != 0]
            elif kind == "full":
                fr = list(range(px))
            elif kind == "one":
                fr = [(i * 5 + j) % px]
            elif kind == "corner":
                fr = [0, px - 1] if px > 1 else [0]
            frames.append(fr)
        ev.append(frames)
    return ev


def subsets(px):
    return [[p for p in range(px) if m >> p & 1] for m in range(1 << px)]


def all_events(npos, nf, px):
    """Every content of npos positions with nf frames of px pixels."""
    subs = subsets(px)
    for combo in itertools.product(subs, repeat=npos * nf):
        yield [[combo[i * nf + j] for j in range(nf)] for i in range(npos)]
