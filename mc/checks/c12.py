"""C12: annular detectors select exactly their pixels; STEM images of counted data count exactly the events inside."""
import itertools
from collections import namedtuple
import numpy as np
from mc import sparse_ref as R

NEEDS_ASAN = True
PROPERTY = "C12"
BOUNDS = {"quick": "every frame shape up to 5x5 plus 7x3, 2x9, 8x8: every centre in and two pixels around the frame and the default for each coordinate, every pair of radii up to the diagonal + 2 (one image per pixel); every event content of 7 small arrays and structured contents of 6 larger ones with 9 annuli through every kind of input (SparseArray, counted-data objects, plain arrays, C++ result, dense raw frames); 8 array layouts",
          "thorough": "as quick plus every frame shape up to 7x7, 16x16 and 32x31 and 4 more exhaustive event spaces"}
ASSUMPTIONS = ["radii are not negative"]
CASE_TIMEOUT = 200


def cases(tier):
    out = []
    top = 5 if tier == "quick" else 7
    shapes = [(h, w) for h in range(1, top + 1) for w in range(1, top + 1)] + [(7, 3), (2, 9), (8, 8)]
    if tier == "thorough":
        shapes += [(16, 16), (32, 31)]
    for sh in shapes:
        big = sh[0] * sh[1] > 100
        step = 1 if not big else 5
        for cy in [-1] + list(range(0, sh[0] + 2, step)):
            out.append(["mask", list(sh), cy, step])
    out.append(["large"])
    ex = [((1, 2), (1, 2), 2), ((1, 1), (2, 3), 1), ((1, 1), (3, 2), 1), ((1, 2), (2, 2), 1), ((2, 1), (1, 3), 1), ((1, 1), (2, 2), 2), ((1, 1), (1, 2), 3)]
    if tier == "thorough":
        ex += [((2, 2), (2, 2), 1), ((1, 2), (2, 3), 1), ((1, 1), (3, 3), 1), ((1, 2), (1, 3), 2)]
    for ss, fs, nf in ex:
        for ev in R.all_events(int(np.prod(ss)), nf, int(np.prod(fs))):
            out.append(["events", ss, fs, nf, ev])
    for ss, fs, nf in [((2, 3), (4, 4), 1), ((3, 2), (4, 8), 2), ((2, 2), (8, 4), 2), ((2, 3), (3, 5), 3), ((1, 3), (5, 3), 1), ((3, 3), (7, 7), 1)]:
        for kind in ("empty", "mixed", "full", "one", "corner"):
            out.append(["events", ss, fs, nf, R.pattern(kind, int(np.prod(ss)), nf, int(np.prod(fs)))])
    for lay in ("strided", "reversed", "int64", "uint8", "int32", "float-free-list", "readonly", "big-endian"):
        out.append(["layout", lay])
    out.append(["errors"])
    return out


def half(n):
    return (n + 1) // 2 if n % 2 else n // 2        # round half away from zero


def mask(fs, inner, outer, center):
    h, w = fs
    cx = half(w) if center[0] < 0 else center[0]
    cy = half(h) if center[1] < 0 else center[1]
    y, x = np.mgrid[0:h, 0:w]
    d = (x - cx) ** 2 + (y - cy) ** 2
    return (d >= inner * inner) & (d < outer * outer)


def weight():
    """The fixed weight of one event."""
    from stempy.io.sparse_array import SparseArray
    from stempy.image import create_stem_images
    a = SparseArray(R.make_data([[[0]]]), (1, 1), (2, 2))
    return int(create_stem_images(a, 0, 10)[0, 0, 0])


ECD = namedtuple("ElectronCountedData", ["data", "scan_dimensions", "frame_dimensions"])


def run_case(case, ctx):
    from stempy.io.sparse_array import SparseArray
    from stempy.image import create_stem_images
    kind = case[0]
    W = weight()
    if W <= 0:
        return f"an event inside counts {W}"
    if kind == "mask":
        _, sh, cy, step = case
        h, w = sh
        arr = SparseArray(R.make_data([[[p]] for p in range(h * w)]), (h, w), (h, w))
        rmax = int(np.hypot(h, w)) + 4
        pairs = [(a, b) for a in range(0, rmax, step) for b in range(0, rmax, step)]
        for cx in [-1] + list(range(0, w + 2, step)):
            ims = create_stem_images(arr, [a for a, _ in pairs], [b for _, b in pairs], center=(cx, cy))
            if ims.shape != (len(pairs), h, w):
                return f"shape {ims.shape}"
            for (a, b), im in zip(pairs, ims):
                ctx.transitions += 1
                m = mask((h, w), a, b, (cx, cy))
                if not np.array_equal(im, m * W):
                    return f"frame {h}x{w} centre {(cx, cy)} annulus [{a},{b}): selects\n{(im // W).tolist()}, expected\n{m.astype(int).tolist()}"
            ctx.step((h, w, cx, cy))
        return None
    if kind == "large":
        for h, w in ((576, 576), (300, 301), (1, 70000), (65, 1027)):
            ev = [[[p for p in (0, h * w - 1, w // 2, (h // 2) * w + w // 2, (h // 3) * w + 5, (h - 1) * w, w - 1) if p < h * w]]]
            ev = [[[p]] for p in sorted(set(ev[0][0]))]
            pos = [e[0][0] for e in ev]
            arr = SparseArray(R.make_data(ev), (len(pos), 1), (h, w))
            for c in ((-1, -1), (0, 0), (w // 2 + 3, h // 2 - 1 if h > 2 else 0), (w + 100, h + 7)):
                rad = [(0, 1), (0, 40), (40, 288), (100, 1000), (0, 100000), (50000, 100000), (46341, 46342), (0, 2 ** 31 - 1), (65536, 2 ** 30)]
                ims = create_stem_images(arr, [a for a, _ in rad], [b for _, b in rad], center=c)
                for (a, b), im in zip(rad, ims):
                    ctx.step((h, w, c, a, b))
                    cx, cy = (half(w) if c[0] < 0 else c[0]), (half(h) if c[1] < 0 else c[1])
                    exp = [int(a * a <= (p % w - cx) ** 2 + (p // w - cy) ** 2 < b * b) * W for p in pos]
                    if im.reshape(-1).tolist() != exp:
                        return f"frame {h}x{w} centre {c} annulus [{a},{b}): pixels {pos} give {im.reshape(-1).tolist()}, expected {exp}"
        return None
    if kind == "events":
        return events(case, ctx, W)
    if kind == "layout":
        ev = [[[0, 2, 5], [1]], [[], [3, 4, 5, 8]], [[7], [7, 8]]]
        fs, ss = (3, 3), (3, 1)
        data = np.empty((3, 2), dtype=object)
        for i in range(3):
            for j in range(2):
                e = ev[i][j]
                lay = case[1]
                if lay == "strided":
                    b = np.full(2 * len(e), 6, np.uint32)
                    b[::2] = e
                    a = b[::2]
                elif lay == "reversed":
                    a = np.array(e[::-1], np.uint32)[::-1]
                elif lay == "readonly":
                    a = np.array(e, np.uint32)
                    a.flags.writeable = False
                elif lay == "big-endian":
                    a = np.array(e, ">u4")
                elif lay == "float-free-list":
                    a = list(e)
                else:
                    a = np.array(e, lay)
                data[i, j] = a
        rad = ([0, 0, 1, 2], [9, 1, 2, 3])
        exp = reference(ev, ss, fs, rad, (1, 1), W)
        for name, got in (("SparseArray", lambda: create_stem_images(SparseArray(data, ss, fs), *rad, center=(1, 1))),
                          ("array", lambda: create_stem_images(data, *rad, scan_dimensions=(1, 3), frame_dimensions=(3, 3), center=(1, 1)))):
            ctx.step((case[1], name))
            try:
                g = got()
            except (TypeError, AttributeError):
                continue            # refusing a layout is fine
            if not np.array_equal(g, exp):
                return f"{case[1]} events through {name}: {g.tolist()}, expected {exp.tolist()}"
        return None
    arr = SparseArray(R.make_data([[[0]], [[1]]]), (2, 1), (2, 2))
    for a, kw in ((([], []), {}), (([0, 1], [1]), {}), (([0], [1, 2]), {})):
        ctx.step(repr(a))
        try:
            create_stem_images(arr, *a, **kw)
            return f"radii {a}: no error"
        except (ValueError, RuntimeError):
            pass
    ctx.step("dims")
    try:
        create_stem_images(arr.data, [0], [3], scan_dimensions=(1, 1), frame_dimensions=(2, 2))
        return "an image smaller than the data: no error"
    except (ValueError, RuntimeError):
        pass
    try:
        create_stem_images("text", [0], [3])
        return "unknown input: no error"
    except Exception:
        pass
    return None


def reference(ev, ss, fs, rad, center, W):
    d = R.dense(ev, ss, fs).reshape(len(ev), -1)
    out = []
    for a, b in zip(*rad):
        out.append((d @ mask(fs, a, b, center).reshape(-1).astype(np.int64) * W).reshape(ss))
    return np.array(out)


def events(case, ctx, W):
    from stempy.io import PyReader
    from stempy.io.sparse_array import SparseArray
    from stempy.image import create_stem_images
    from stempy import _image
    _, ss, fs, nf, ev = case
    ss, fs = tuple(ss), tuple(fs)
    n, px = len(ev), fs[0] * fs[1]
    what = f"scan {ss} frame {fs} events {ev}: "
    dims, fdims = ss[::-1], fs[::-1]
    arr = SparseArray(R.make_data(ev), ss, fs)
    rad = ([0, 0, 0, 1, 1, 2, 0, 3, 1], [100, 1, 2, 2, 3, 4, 0, 3, 100])
    for center in ((-1, -1), (0, 0), (fs[1] - 1, 0), (1, 1)):
        exp = reference(ev, ss, fs, rad, center, W)
        inputs = [("SparseArray", lambda: create_stem_images(arr, *rad, center=center)),
                  ("tuple radii", lambda: create_stem_images(arr, tuple(rad[0]), tuple(rad[1]), center=center)),
                  ("array", lambda: create_stem_images(arr.data, *rad, scan_dimensions=dims, frame_dimensions=fdims, center=center)),
                  ("counted data", lambda: create_stem_images(ECD(arr.data, dims, fdims), *rad, center=center))]
        if nf == 1:
            inputs.append(("1-D array", lambda: create_stem_images(arr.data[:, 0], *rad, scan_dimensions=dims, frame_dimensions=fdims, center=center)))
            inputs.append(("1-D counted data", lambda: create_stem_images(ECD(arr.data[:, 0], dims, fdims), *rad, center=center)))
        for name, f in inputs:
            ctx.step((ev, center))
            got = f()
            if not np.array_equal(got, exp):
                return what + f"{name} centre {center}: {got.tolist()}, expected {exp.tolist()}"
        one = create_stem_images(arr, rad[0][3], rad[1][3], center=center)
        if not np.array_equal(one, exp[3:4]):
            return what + f"scalar radii: {one.tolist()}, expected {exp[3:4].tolist()}"
        # the equivalent dense 0/1 frames, one frame per position and image number
        for f in range(nf):
            dense = np.zeros((n, px), np.uint16)
            for p in range(n):
                dense[p, ev[p][f]] = 1
            dense = dense.reshape((n,) + fs)
            part = reference([[ev[p][f]] for p in range(n)], ss, fs, rad, center, 1)
            got = create_stem_images(dense, *rad, scan_dimensions=dims, center=center)
            if not np.array_equal(got, part):
                return what + f"dense frames {f} centre {center}: {got.tolist()}, expected {part.tolist()}"
        # the result of electron counting, as the C++ object
        if px > 1 and nf == 1:
            from mc.checks import c10
            fr = np.zeros((n, px), np.uint16)
            for p in range(n):
                fr[p, ev[p][0]] = 5
            res = c10.count(fr.reshape((n,) + fs), None, None, 1.0, 10.0, scan=dims)
            cev = [[np.asarray(x).tolist() for x in p] for p in res.data]
            class Counted:
                _electron_counted_data = res
            got = create_stem_images(Counted(), *rad, center=center)
            cexp = reference(cev, ss, fs, rad, center, W)
            if not np.array_equal(got, cexp):
                return what + f"counted by electron_count centre {center}: {got.tolist()}, expected {cexp.tolist()}"
        allf = np.zeros((n * nf, px), np.uint16)
        for p in range(n):
            for f in range(nf):
                allf[f * n + p, ev[p][f]] = 1
        reader = PyReader(allf.reshape((-1,) + fs), np.tile(np.arange(n), nf), dims, 2, n * nf)
        got = create_stem_images(reader, *rad, center=center)
        if not np.array_equal(got * W, exp):
            return what + f"reader of dense frames centre {center}: {got.tolist()}, expected {(exp // W).tolist()}"
    return None
