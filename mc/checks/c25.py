"""C25: COM, radial sums, virtual dark field, masked and summed patterns of sparse data equal the dense values."""
import itertools, math, warnings
from fractions import Fraction
import numpy as np
from mc import sparse_ref as R

NEEDS_PLAIN = True
PROPERTY = "C25"
BOUNDS = {"quick": "every content of (scan, frame, frames/position) (1,2)x(1,2)x2, (1,1)x(2,3)x1, (1,1)x(3,2)x1, (1,2)x(2,2)x1, (2,1)x(1,3)x1, (1,1)x(2,2)x2; structured contents on 6 larger shapes, 4 shapes of the real detector size with 1, 3 and 300 frames per position; events in 6 integer types on frames whose pixels just fit; both COM algorithms, 5 crops, 3 centres, NaN handling; every aperture centre in and around the frame with 5 radii and pairs of apertures; every real-space mask, in three memory layouts; every radial centre incl. half pixels",
          "thorough": "as quick plus every content of (2,2)x(2,2)x1, (1,2)x(2,3)x1 and (1,1)x(3,3)x1"}
ASSUMPTIONS = ["an event exactly on a crop boundary around a centre that is not exactly representable is not judged",
               "results are compared to 1e-4 (they are stored as 32-bit floats)"]


def cases(tier):
    out = []
    ex = [((1, 2), (1, 2), 2), ((1, 1), (2, 3), 1), ((1, 1), (3, 2), 1), ((1, 2), (2, 2), 1), ((2, 1), (1, 3), 1), ((1, 1), (2, 2), 2)]
    if tier == "thorough":
        ex += [((2, 2), (2, 2), 1), ((1, 2), (2, 3), 1), ((1, 1), (3, 3), 1)]
    for ss, fs, nf in ex:
        for ev in R.all_events(int(np.prod(ss)), nf, int(np.prod(fs))):
            out.append([ss, fs, nf, ev])
    for ss, fs, nf in [((2, 3), (4, 4), 1), ((3, 2), (4, 8), 2), ((2, 2), (8, 4), 2), ((2, 3), (3, 5), 3), ((1, 3), (5, 3), 1), ((2, 2), (6, 4), 2), ((3, 3), (7, 7), 1)]:
        for kind in ("empty", "mixed", "full", "one", "corner"):
            out.append([ss, fs, nf, R.pattern(kind, int(np.prod(ss)), nf, int(np.prod(fs)))])
    for fs in [(576, 576), (100, 700), (700, 100), (512, 1024)]:
        for nf in (1, 3, 300):
            out.append(["big", fs, nf])
    for dt, fs in (("uint8", (16, 16)), ("uint8", (4, 64)), ("uint16", (256, 256)), ("uint16", (64, 1024)), ("int16", (128, 256)), ("int32", (256, 256)), ("int64", (256, 256)), ("uint64", (256, 256))):
        out.append(["types", dt, fs])
    return out


def types(ctx, dt, fs):
    """Events in every integer type that can hold the pixels of the frame: each pixel is an event of one position."""
    from stempy.io.sparse_array import SparseArray
    from stempy import image as I
    px = fs[0] * fs[1]
    rows, cols = np.divmod(np.arange(px, dtype=np.int64), fs[1])
    step = 1 if px <= 256 else 61
    groups = [np.arange(k, px, 3 * step) for k in range(0, 3 * step, step)] + [np.arange(px)]
    data = np.empty((4, 1), dtype=object)
    for k, g in enumerate(groups):
        data[k, 0] = g.astype(dt)
    arr = SparseArray(data, (2, 2), fs)
    what = f"{dt} events, frame {fs}"
    ctrs = [(0, 0), (fs[0] - 1, fs[1] - 1), (0, fs[1] - 1), (fs[0] // 2, fs[1] // 2), (fs[0] / 2 + 0.5, 3.5), (-3, 2)]
    for cr, cc in ctrs:
        for r in (1, 5, 5.5, 20, fs[0]):
            d2 = ((rows - cr) ** 2 + (cols - cc) ** 2).astype(float)       # exact: halves at most
            want = np.array([(d2[g] < r * r).sum() for g in groups]).reshape(2, 2)
            got = I.virtual_darkfield(arr, cc, cr, r)
            ctx.step(("vdf", dt, fs, cr, cc, r))
            if not R.same(got, want):
                return f"virtual_darkfield(x={cc}, y={cr}, radius={r}), {what}: {np.asarray(got).tolist()} instead of {want.tolist()}"
            want = np.full((2, 4), np.nan)
            for k, g in enumerate(groups):
                keep = g[d2[g] <= r * r]
                if len(keep):
                    want[:, k] = cols[keep].mean(), rows[keep].mean()
            for version in (0, 1):
                got = I.com_sparse(arr, crop_to=r, init_center=(cr, cc), replace_nans=False, version=version)
                ctx.step(("com", dt, fs, cr, cc, r, version))
                if not R.close(got, want.reshape(2, 2, 2)):
                    return f"com_sparse(crop_to={r}, init_center={(cr, cc)}, replace_nans=False, version={version}), {what}: {np.asarray(got).tolist()} instead of {want.reshape(2, 2, 2).tolist()}"
        nb = max(fs) // 2
        want = np.zeros((4, nb), int)
        d = np.sqrt(((rows - cr) ** 2 + (cols - cc) ** 2).astype(float))
        for k, g in enumerate(groups):
            want[k] = np.histogram(d[g], bins=range(nb + 1))[0]
        ctx.step(("radial", dt, fs, cr, cc))
        if not R.same(I.radial_sum_sparse(arr, (cr, cc)), want.reshape(2, 2, nb)):
            return f"radial_sum_sparse(center={(cr, cc)}), {what}: wrong"
    want = np.array([[cols[g].mean() for g in groups], [rows[g].mean() for g in groups]])
    for version in (0, 1):
        ctx.step(("fullcom", dt, fs, version))
        if not R.close(I.com_sparse(arr, version=version), want.reshape(2, 2, 2)):
            return f"com_sparse(version={version}), {what}: wrong"
    for m in (0b0101, 0b1000, 0b1111):
        mask = np.array([m >> p & 1 for p in range(4)]).reshape(2, 2)
        want = sum(np.bincount(g, minlength=px) for p, g in enumerate(groups) if m >> p & 1).reshape(fs)
        ctx.step(("mask", dt, fs, m))
        if not R.same(I.mask_real_space(arr, mask), want):
            return f"mask_real_space({mask.tolist()}), {what}: wrong"
    want = sum(np.bincount(g, minlength=px) for g in groups).reshape(fs)
    if not R.same(arr.sum(axis=(0, 1)), want):
        return f"sum over the scan, {what}: wrong"
    b = arr.bin_frames(2)
    for k, g in enumerate(groups):
        want = np.bincount(g, minlength=px).reshape(fs[0] // 2, 2, fs[1] // 2, 2).sum(axis=(1, 3))
        ctx.step(("bin", dt, fs, k))
        if not R.same(b[k // 2, k % 2], want):
            return f"bin_frames(2) at position {k}, {what}: wrong"
    plain = np.empty((4, 1), dtype=object)
    for k, g in enumerate(groups):
        plain[k, 0] = g.astype(np.uint32)
    want = I.create_stem_images(SparseArray(plain, (2, 2), fs), [0, 2], [5, 40], center=(3, 2))
    ctx.step(("stem", dt, fs))
    if not R.same(I.create_stem_images(arr, [0, 2], [5, 40], center=(3, 2)), want):
        return f"create_stem_images, {what}: differs from the images of uint32 events"
    return None


def big(ctx, fs, nf):
    """Frames of the real size, and many frames per position"""
    from stempy.io.sparse_array import SparseArray
    from stempy import image as I
    ss, px = (2, 3), fs[0] * fs[1]
    ev = [[sorted({(p * 7919 + f * 104729 + k * k * 31337) % px for k in range(0 if p == 4 else 3 + 5 * p)} | set([[7], [9], [fs[1] * (fs[0] // 2) + fs[1] // 2], [0], [], [px - 1]][p])) for f in range(nf)] for p in range(6)]
    arr = SparseArray(R.make_data(ev), ss, fs)
    pts = [[(e // fs[1], e % fs[1]) for fr in pos for e in fr] for pos in ev]
    what = f"scan {ss} frame {fs}, {nf} frames per position"
    for crop in (None, 60, 300):
        for init in (None, (fs[0] / 2, fs[1] / 2), (40, 60)):
            for rep in (True, False):
                want = com_ref(ev, ss, fs, crop, init, rep)
                for version in (0, 1) if want is not None else ():
                    got = I.com_sparse(arr, crop_to=crop, init_center=init, replace_nans=rep, version=version)
                    ctx.step(("bigcom", fs, nf, crop, init, rep, version))
                    if not R.close(got, want):
                        return f"com_sparse(crop_to={crop}, init_center={init}, replace_nans={rep}, version={version}), {what}: {got.tolist()} instead of {want.tolist()}"
    for c in [(fs[0] / 2, fs[1] / 2), (0, 0), (fs[0] - 1, 17)]:
        nb = max(fs) // 2
        want = np.zeros((6, nb), int)
        for p in range(6):
            for a, b in pts[p]:
                d2 = Fraction(a - Fraction(c[0])) ** 2 + Fraction(b - Fraction(c[1])) ** 2
                k = math.isqrt(math.floor(d2))
                if k < nb:
                    want[p, k] += 1
                elif d2 == nb * nb:
                    want[p, nb - 1] += 1
        got = I.radial_sum_sparse(arr, c)
        ctx.step(("bigradial", fs, nf, c))
        if not R.same(got, want.reshape(ss + (nb,))):
            return f"radial_sum_sparse(center={c}), {what}: {np.argwhere(np.asarray(got) != want.reshape(ss + (nb,)))[:5].tolist()} differ"
    for x, y, r in [(fs[1] // 2, fs[0] // 2, 50), (0, 0, 400.5), (fs[1] - 1, fs[0] - 1, 3), (17, fs[0] // 3, 1000)]:
        want = np.array([sum((a - y) ** 2 + (b - x) ** 2 < r * r for a, b in q) for q in pts]).reshape(ss)
        got = I.virtual_darkfield(arr, x, y, r)
        ctx.step(("bigvdf", fs, nf, x, y, r))
        if not R.same(got, want):
            return f"virtual_darkfield(x={x}, y={y}, radius={r}), {what}: {got.tolist()} instead of {want.tolist()}"
    for m in (0b101010, 0b000111, 0b100001):
        mask = np.array([m >> p & 1 for p in range(6)]).reshape(ss)
        want = np.zeros(px, int)
        for p in range(6):
            for a, b in pts[p] if m >> p & 1 else ():
                want[a * fs[1] + b] += 1
        ctx.step(("bigmask", fs, nf, m))
        if not R.same(I.mask_real_space(arr, mask), want.reshape(fs)):
            return f"mask_real_space({mask.tolist()}), {what}: wrong"
    return None


def com_ref(ev, ss, fs, crop, init, replace):
    """Returns (2, *ss) floats, or None if a decision depends on rounding."""
    n = len(ev)
    out = np.full((2, n), np.nan)
    for p in range(n):
        pts = [(e // fs[1], e % fs[1]) for fr in ev[p] for e in fr]
        if not pts:
            continue
        k = len(pts)
        c0 = Fraction(sum(a for a, _ in pts), k)
        c1 = Fraction(sum(b for _, b in pts), k)
        if crop is not None:
            a0, a1 = (Fraction(init[0]), Fraction(init[1])) if init is not None else (c0, c1)
            exact = all(x.denominator & (x.denominator - 1) == 0 for x in (a0, a1))
            keep = []
            for a, b in pts:
                d = (a - a0) ** 2 + (b - a1) ** 2 - Fraction(crop) ** 2
                if not exact and abs(d) < Fraction(1, 1000):
                    return None
                if d <= 0:
                    keep.append((a, b))
            if not keep:
                continue
            k = len(keep)
            c0 = Fraction(sum(a for a, _ in keep), k)
            c1 = Fraction(sum(b for _, b in keep), k)
        out[0, p], out[1, p] = float(c1), float(c0)
    if replace:
        for i in range(2):
            good = ~np.isnan(out[i])
            if good.any():
                out[i][~good] = out[i][good].mean()
    return out.reshape((2,) + tuple(ss))


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return check(case, ctx)


def check(case, ctx):
    from stempy.io.sparse_array import SparseArray
    from stempy import image as I
    if case[0] == "types":
        return types(ctx, case[1], tuple(case[2]))
    if case[0] == "big":
        return big(ctx, tuple(case[1]), case[2])
    ss, fs, nf, ev = case
    ss, fs = tuple(ss), tuple(fs)
    n, px = len(ev), int(np.prod(fs))
    arr = SparseArray(R.make_data(ev), ss, fs)
    dense = R.dense(ev, ss, fs)
    what = f"scan {ss} frame {fs} events {ev}"

    # centre of mass
    inits = [None, (0, 0), (fs[0] - 1, 0.5), (fs[0] / 2, fs[1] / 2)]
    for crop in (None, 0, 1, 1.5, 2, (1, 2), [3, 1]):
        for init in inits:
            for rep in (True, False):
                c = max(crop) if isinstance(crop, (tuple, list)) else crop
                want = com_ref(ev, ss, fs, c, init, rep)
                if want is None:
                    continue
                for version in (0, 1):
                    got = I.com_sparse(arr, crop_to=crop, init_center=init, replace_nans=rep, version=version)
                    ctx.step(("com", want.tobytes()))
                    if not R.close(got, want):
                        return f"com_sparse(crop_to={crop}, init_center={init}, replace_nans={rep}, version={version}), {what}: {got.tolist()}, the dense frames give {want.tolist()}"
    for p in range(n):
        d = dense.reshape((n,) + fs)[p]
        if d.sum():
            got = I.com_dense(d)
            want = com_ref([ev[p]], (1, 1), fs, None, None, False).reshape(2, 1)
            ctx.step(("dense", want.tobytes()))
            if not R.close(got, want):
                return f"com_dense of frame {p} of {what}: {got.tolist()} instead of {want.tolist()}"

    # radial sum
    nb = max(fs) // 2
    if nb:
        for c in [(a / 2, b / 2) for a in range(-1, 2 * fs[0] + 1, 1 if px <= 6 else 3) for b in range(-1, 2 * fs[1] + 1, 1 if px <= 6 else 3)]:
            want = np.zeros((n, nb), int)
            for p in range(n):
                for fr in ev[p]:
                    for e in fr:
                        d2 = Fraction(e // fs[1] - Fraction(c[0])) ** 2 + Fraction(e % fs[1] - Fraction(c[1])) ** 2
                        b = math.isqrt(math.floor(d2))
                        if b < nb:
                            want[p, b] += 1
                        elif d2 == nb * nb:
                            want[p, nb - 1] += 1
            want = want.reshape(ss + (nb,))
            got = I.radial_sum_sparse(arr, c)
            ctx.step(("radial", c, want.tobytes()))
            if not R.same(got, want):
                return f"radial_sum_sparse(center={c}), {what}: {np.asarray(got).tolist()} instead of {want.tolist()}"

    # virtual dark field
    def inside(cx, cy, r):
        rows, cols = np.mgrid[0:fs[0], 0:fs[1]]
        m = np.array([[Fraction(int(a) - Fraction(cy)) ** 2 + Fraction(int(b) - Fraction(cx)) ** 2 < Fraction(r) ** 2 for a, b in zip(ra, rb)] for ra, rb in zip(rows, cols)])
        return m
    cxs = [-1, 0, fs[1] - 1, fs[1] / 2, fs[1]] if px > 4 else [-1, 0, 0.5, 1, 2]
    cys = [0, fs[0] - 1, fs[0] / 2, fs[0]] if px > 4 else [0, 0.5, 1]
    aps = [(x, y, r) for x in cxs for y in cys for r in (0, 1, 1.5, 3)]
    masks = {a: inside(*a) for a in aps}
    for a in aps:
        want = (dense * masks[a]).sum(axis=(2, 3))
        ctx.step(("vdf", a, want.tobytes()))
        got = I.virtual_darkfield(arr, *a)
        if not R.same(got, want):
            return f"virtual_darkfield(x={a[0]}, y={a[1]}, radius={a[2]}), {what}: {got.tolist()} instead of {want.tolist()}"
    for a, b in list(itertools.combinations(aps, 2))[:: max(1, len(aps) // 2)]:
        want = (dense * masks[a]).sum(axis=(2, 3)) + (dense * masks[b]).sum(axis=(2, 3))
        got = I.virtual_darkfield(arr, (a[0], b[0]), (a[1], b[1]), (a[2], b[2]))
        ctx.step(("vdf2", a, b, want.tobytes()))
        if not R.same(got, want):
            return f"virtual_darkfield of two apertures {a}, {b}, {what}: {got.tolist()} instead of {want.tolist()}"

    # real-space mask
    bits = range(1 << n) if n <= 4 else [0, 1, 1 << (n - 1), (1 << n) - 1, 0b101101 & ((1 << n) - 1), 0b010110 & ((1 << n) - 1)]
    for m in bits:
        mask = np.array([m >> p & 1 for p in range(n)]).reshape(ss)
        want = (dense * mask[:, :, None, None]).sum(axis=(0, 1))
        for mk in (mask, mask.astype(bool), mask.astype(float), np.asfortranarray(mask.astype(bool)), np.repeat(mask, 2, axis=1)[:, ::2]):
            got = I.mask_real_space(arr, mk)
            ctx.step(("mask", m, want.tobytes()))
            if not R.same(got, want):
                return f"mask_real_space(mask={mask.tolist()}), {what}: {got.tolist()} instead of {want.tolist()}"

    # summed pattern
    for f in range(nf):
        want = R.dense([[fr[f]] for fr in ev], ss, fs).sum(axis=(0, 1))
        got = I.calculate_sum_sparse(arr.data[:, f], fs)
        ctx.step(("sum", want.tobytes()))
        if not R.same(got, want):
            return f"calculate_sum_sparse of frame {f}, {what}: {got.tolist()} instead of {want.tolist()}"
    if not R.same(R.expand(arr), dense):
        return f"an analysis function changed the array, {what}"
    return None
