"""C05: STEM images and radial sums of raw blocks: every grouping and order, every centre, every schedule of the pool."""
import itertools, struct
import numpy as np
from mc import ops, readers_ref
from mc.readers_ref import Recording, sector_files, count_frame, ALL

NEEDS_ASAN = True
NEEDS_OPS = True
PROPERTY = "C05"
BOUNDS = {"quick": "4 frames: every order x every grouping into blocks x 6 assignments of scan positions x 4 lists of radii (version 1 files); every frame shape up to 5x5, 7x3, 2x9: every centre in and up to two pixels around the frame and the default for each coordinate, every pixel on its own at 65535; sums above 2^32; sectors and version 2 and 3 blocks with the scan size of the file; every position of an image outside of the scan or a truncation in 3 blocks, with a repetition after it; "
                   "Python: up to 5 frames with every block size x 5 assignments x 4 layouts, plain arrays of 1 to 65 frames; 70 frames of 5 shapes up to 576x576 and 1x70000 with sums above 2^32; scans of 300x300 and 2x66000; "
                   "schedules: 1 to 4 blocks, 1 to 3 pairs of radii, frames of the same and of different positions, failing reads: every schedule of at most 3 deviations (2 for 4 blocks)",
          "thorough": "as quick with 5 frames and one more deviation"}
ASSUMPTIONS = ["all blocks have the frame size of the first one", "radii are not negative and the centre is not more than two pixels outside of the frame", "a deviation is a switch of threads that the default schedule would not make",
               "sequential consistency (races are reported as such)"]
CASE_TIMEOUT = 700
TIME_LIMIT = {"quick": 450, "thorough": 3 * 3600}


def setup():
    ops.setup(sched=True)


def half(n):
    return (n + 1) // 2 if n % 2 else n // 2        # round half away from zero


def default(shape, center):
    h, w = shape
    return half(w) if center[0] < 0 else center[0], half(h) if center[1] < 0 else center[1]


def ceil_sqrt(d2):
    from math import isqrt
    r = isqrt(int(d2))
    return r if r * r == d2 else r + 1


def ref_stem(frames, numbers, scan, pairs, center=(-1, -1)):
    h, w = frames[0].shape
    cx, cy = default((h, w), center)
    y, x = np.mgrid[0:h, 0:w]
    d = (x - cx) ** 2 + (y - cy) ** 2
    out = np.zeros((len(pairs), scan[0] * scan[1]), dtype=object)
    for i, (a, b) in enumerate(pairs):
        m = (d >= a * a) & (d < b * b)
        for f, n in zip(frames, numbers):
            out[i, n] += int(f[m].astype(np.int64).sum())
    return out


def ref_radial(frames, numbers, scan, center=(-1, -1)):
    h, w = frames[0].shape
    cx, cy = default((h, w), center)
    radii = max(ceil_sqrt((x - cx) ** 2 + (y - cy) ** 2) for x in (0, w) for y in (0, h)) + 1
    rad = np.array([[ceil_sqrt((x - cx) ** 2 + (y - cy) ** 2) for x in range(w)] for y in range(h)])
    out = np.zeros((radii, scan[0] * scan[1]), dtype=object)
    for f, n in zip(frames, numbers):
        for r in range(radii):
            out[r, n] += int(f[rad == r].astype(np.int64).sum())
    return out


def stem_text(ref, scan):
    return "".join(f"{scan[0]}x{scan[1]}:" + "".join(f" {v}" for v in im) + "; " for im in ref)


def radial_text(ref, scan):
    return f"{scan[0]}x{scan[1]}x{len(ref)}:" + "".join(f" {v}" for v in ref.ravel())


def v1_file(blocks):
    """blocks: [(frames, numbers)]"""
    out = b""
    for frames, numbers in blocks:
        h, w = frames[0].shape
        head = np.zeros(1024, dtype="<u4")
        head[:5] = [len(frames), h, w, 1, 99]
        head[10:10 + len(frames)] = [n + 1 for n in numbers]
        out += head.tobytes() + b"".join(f.astype("<u2").tobytes() for f in frames)
    return out


def compositions(n):
    return [[n]] if n == 0 else [[k] + r for k in range(1, n + 1) for r in ([[]] if k == n else compositions(n - k))]


def frame(k, shape, big=True):
    h, w = shape
    a = (np.arange(h * w, dtype=np.int64) * 977 + 131 * k * k + 17 * k) % 5003
    if big:
        a[k % (h * w)] = 65535
    return a.astype(np.uint16).reshape(h, w)


def group(frames, numbers, comp):
    out, i = [], 0
    for n in comp:
        out.append((frames[i:i + n], numbers[i:i + n]))
        i += n
    return out


RADII = [[(0, 3)], [(0, 1), (1, 2), (2, 9)], [(0, 50), (0, 0), (1, 2), (0, 50), (3, 1)], [(1, 2), (0, 2)]]
NUMBERS = [[0, 1, 2, 3, 4], [0, 0, 1, 1, 0], [2, 2, 2, 2, 2], [5, 3, 1, 0, 4], [0, 5, 0, 5, 0], [1, 1, 1, 4, 1]]
SCAN = (3, 2)
SHAPES = [(h, w) for h in range(1, 6) for w in range(1, 6)] + [(7, 3), (2, 9)]

# schedules: name -> (shape, scan, [[position, ...] per block], pairs of radii, operations, what is wrong)
S = {
    "one": ((1, 2), (1, 1), [[0]], [(0, 9)]),
    "two-same": ((2, 2), (1, 1), [[0], [0]], [(0, 9)]),
    "two-differ": ((2, 2), (2, 1), [[0], [1]], [(0, 1), (1, 9)]),
    "three-same": ((1, 2), (1, 1), [[0], [0], [0]], [(0, 9)]),
    "two-frames": ((1, 2), (2, 1), [[0, 1], [1, 0]], [(0, 9)]),
    "two-frames-two": ((1, 2), (1, 1), [[0, 0], [0]], [(0, 1), (0, 9)]),
    "three-two": ((1, 1), (2, 1), [[1], [0], [1]], [(0, 9), (0, 1)]),
    "four": ((1, 1), (2, 1), [[1], [0], [1], [0]], [(0, 9)]),
    "three-radii": ((1, 2), (1, 1), [[0]], [(0, 1), (1, 2), (0, 9)]),
    "outside-first": ((1, 2), (1, 1), [[1], [0]], [(0, 9)]),
    "outside-second": ((1, 2), (1, 1), [[0], [1]], [(0, 9)]),
    "outside-third": ((1, 2), (2, 1), [[0], [1], [2]], [(0, 9)]),
    "cut-second": ((1, 2), (1, 1), [[0], [0]], [(0, 9)]),
    "cut-third": ((1, 2), (2, 1), [[0], [1], [0]], [(0, 9), (0, 1)]),
}


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    deep = 3 if tier == "quick" else 4
    for name in S:
        for op in ("stem", "radial", "both"):
            b = deep - 1 if name == "four" or op == "both" else deep
            parts = 8 if b == deep or op == "both" else 2
            for p in range(parts):
                out.append(["sched", name, op, b, p, parts])
    for perm in itertools.permutations(range(n)):
        out.append(["group", list(perm)])
    for sh in SHAPES:
        out.append(["centre", list(sh)])
    out += [["large"], ["versions"], ["errors"]]
    for k in range(4):
        out.append(["fail", k])
    for k in range(1, 6):
        for bs in range(1, k + 2):
            for lay in LAYOUTS:
                out.append(["python", k, bs, lay])
    for k in (1, 2, 31, 32, 33, 63, 64, 65):
        for lay in LAYOUTS:
            out.append(["array", k, lay])
    out.append(["pyerrors"])
    for sh in BIG:
        for content in ("full", "pattern"):
            out.append(["big", list(sh), content])
    out += [["positions", k] for k in range(2)]
    return out


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def stem_op(scan, pairs, center=(-1, -1)):
    return f"stem {scan[0]} {scan[1]} {center[0]} {center[1]} " + " ".join(f"{a} {b}" for a, b in pairs)


def radial_op(scan, center=(-1, -1)):
    return f"radial {scan[0]} {scan[1]} {center[0]} {center[1]}"


def compare(ctx, what, todo, got, want):
    ctx.step((what, tuple(g[:200] for g in got)))
    if len(got) != len(todo) + 1 or got[0] != "ok":
        return f"{what}: {got}"
    for op, g, w in zip(todo, got[1:], want):
        if w == "error":
            if not g.startswith("error") or "unexpected" in g:
                return f"{what}: {op} returned {g[:300]}, expected an error"
        elif w is not None and g.strip() != w.strip():
            return f"{what}: {op} returned\n{g[:600]}\nexpected\n{w[:600]}"
    return None


def do_group(ctx, perm):
    n = len(perm)
    for shape in ((2, 3), (3, 3)):
        frames = [frame(k, shape) for k in perm]
        for numbers in NUMBERS:
            numbers = [numbers[k] for k in perm]
            want = [stem_text(ref_stem(frames, numbers, SCAN, r), SCAN) for r in RADII] + [radial_text(ref_radial(frames, numbers, SCAN), SCAN)]
            for comp in compositions(n):
                files = ops.write_files({"a": v1_file(group(frames, numbers, comp))})
                todo, expected = [], []
                for o, w in zip([stem_op(SCAN, r) for r in RADII] + [radial_op(SCAN)], want):
                    todo += [o, "reset"]
                    expected += [w, "ok"]
                m = compare(ctx, f"frames {perm} of {shape} at {numbers} in blocks of {comp}", todo, ops.run(ops.scenario("stream", 1, 1, files, todo)), expected)
                if m:
                    return m
    return None


def do_centre(ctx, shape):
    h, w = shape
    frames = []
    for p in range(h * w):
        a = np.zeros(h * w, np.uint16)
        a[p] = 65535 - p
        frames.append(a.reshape(h, w))
    numbers = list(range(h * w))
    scan = (w, h)
    files = ops.write_files({"a": v1_file([(frames, numbers)])})
    for cx in range(-1, w + 2):
        for cy in range(-1, h + 2):
            pairs = [(a, b) for a in range(0, 4) for b in (1, 2, 5)]
            todo = [stem_op(scan, pairs, (cx, cy)), "reset", radial_op(scan, (cx, cy))]
            want = [stem_text(ref_stem(frames, numbers, scan, pairs, (cx, cy)), scan), "ok", radial_text(ref_radial(frames, numbers, scan, (cx, cy)), scan)]
            m = compare(ctx, f"{h}x{w} centre {(cx, cy)}", todo, ops.run(ops.scenario("stream", 1, 1, files, todo)), want)
            if m:
                return m
    return None


def do_large(ctx):
    shape = (16, 16)
    full = np.full(shape, 65535, np.uint16)
    blocks = [([full] * 1000, [0] * 999 + [1]) for _ in range(2)] + [([full], [1])]
    frames = [f for b, _ in blocks for f in b]
    numbers = [n for _, b in blocks for n in b]
    files = ops.write_files({"a": v1_file(blocks)})
    pairs, scan = [(0, 100), (0, 5)], (2, 1)
    y, x = np.mgrid[0:16, 0:16]
    d = (x - 8) ** 2 + (y - 8) ** 2
    count = np.bincount(numbers)
    stem = np.array([[int(((d >= a * a) & (d < b * b)).sum()) * 65535 * int(c) for c in count] for a, b in pairs], dtype=object)
    rad = np.array([[ceil_sqrt(v) for v in row] for row in d])
    radial = np.array([[int((rad == r).sum()) * 65535 * int(c) for c in count] for r in range(13)], dtype=object)
    todo = [stem_op(scan, pairs), "reset", radial_op(scan)]
    return compare(ctx, "sums above 2^32", todo, ops.run(ops.scenario("stream", 1, 1, files, todo), 120), [stem_text(stem, scan), "ok", radial_text(radial, scan)])


def do_versions(ctx):
    """The scan size of the file is the default"""
    size = 8
    todo = [stem_op((0, 0), RADII[1]), "reset", radial_op((0, 0)), "reset", stem_op((0, 2), RADII[0]), "reset", stem_op((3, 0), RADII[0]), "reset", stem_op((4, 3), RADII[0], (1, 6)), "reset", radial_op((6, 1), (0, 7))]

    def want(frames, numbers, scan):
        return [stem_text(ref_stem(frames, numbers, scan, RADII[1]), scan), "ok", radial_text(ref_radial(frames, numbers, scan), scan), "ok",
                stem_text(ref_stem(frames, numbers, scan, RADII[0]), scan), "ok", stem_text(ref_stem(frames, numbers, scan, RADII[0]), scan), "ok",
                stem_text(ref_stem(frames, numbers, (4, 3), RADII[0], (1, 6)), (4, 3)), "ok", radial_text(ref_radial(frames, numbers, (6, 1), (0, 7)), (6, 1))]

    for nums in NUMBERS:
        frames = [frame(k, (size, size)) for k in range(len(nums))]
        data = b"".join(struct.pack("<IIHHHH", 1, k, SCAN[0], SCAN[1], n % SCAN[0], n // SCAN[0]) + f.tobytes() for k, (f, n) in enumerate(zip(frames, nums)))
        files = ops.write_files({"a": data})
        m = compare(ctx, f"version 3, positions {nums}", todo, ops.run(ops.scenario("stream", 3, 1, files, todo)), want(frames, nums, SCAN))
        if m:
            return m
        for version in (4, 5):
            fr = [(n, k, f, ALL) for k, (f, n) in enumerate(zip(frames, nums))]
            if version == 4:
                fr = [x for i, x in enumerate(fr) if x[0] not in [y[0] for y in fr[:i]]]
            files = ops.write_files(sector_files(version, fr, SCAN))
            m = compare(ctx, f"sectors, version {version}, positions {nums}", todo, ops.run(ops.scenario("seq", version, 1, files, todo)), want([x[2] for x in fr], [x[0] for x in fr], SCAN))
            if m:
                return m
    n = 1600
    px = ((np.arange(n * 64) * 7919) % 65536).astype("<u2").reshape(n, 8, 8)
    files = ops.write_files({"a": struct.pack("<I", 5) + px.tobytes()})
    todo = [stem_op((40, 40), [(0, 4)]), "reset", radial_op((1600, 1)), "reset", stem_op((0, 0), [(0, 4)])]
    return compare(ctx, "version 2", todo, ops.run(ops.scenario("stream", 2, 1, files, todo)),
                   [stem_text(ref_stem(px, range(n), (40, 40), [(0, 4)]), (40, 40)), "ok", radial_text(ref_radial(px, range(n), (1600, 1)), (1600, 1)), "ok", "error"])


def do_errors(ctx):
    shape = (2, 3)
    frames, numbers = [frame(k, shape) for k in range(3)], [0, 1, 0]
    good = stem_text(ref_stem(frames, numbers, SCAN, RADII[0]), SCAN)
    todo, want = [], []
    for bad in (f"stem {SCAN[0]} {SCAN[1]} -1 -1", f"stem {SCAN[0]} {SCAN[1]} -1 -1 3", f"stem {SCAN[0]} {SCAN[1]} -1 -1 0 3 5",
                "stem 0 0 -1 -1 0 3", "stem 3 0 -1 -1 0 3", "stem 0 2 -1 -1 0 3", "radial 0 0 -1 -1", "radial 3 0 -1 -1", "radial 0 2 -1 -1"):
        todo += [bad, "reset", stem_op(SCAN, RADII[0]), stem_op(SCAN, RADII[0]), radial_op(SCAN), "reset"]
        want += ["error", "ok", good, "error", "error", "ok"]        # nothing is left to be read the second time
    files = ops.write_files({"a": v1_file(group(frames, numbers, [2, 1]))})
    m = compare(ctx, "errors", todo, ops.run(ops.scenario("stream", 1, 1, files, todo)), want)
    files = ops.write_files({"empty": b""})
    todo = [stem_op(SCAN, RADII[0]), radial_op(SCAN)]
    return m or compare(ctx, "empty file", todo, ops.run(ops.scenario("stream", 1, 1, files, todo)), ["error", "error"])


def do_fail(ctx, k):
    """Block k has an image outside of the scan, or is cut"""
    shape = (2, 3)
    frames, numbers = [frame(i, shape) for i in range(4)], [0, 5, 0, 3]
    for comp in compositions(4):
        for what in ("outside", "cut-header", "cut"):
            nums = list(numbers)
            if what == "outside":
                nums[k] = 6
            data = v1_file(group(frames, nums, comp))
            if what != "outside":
                blocks, at = group(frames, nums, comp), 0
                for i, (f, n) in enumerate(blocks):
                    L = 4096 + 12 * len(f)
                    if i == k:
                        at += 1000 if what == "cut-header" else L - 1
                        break
                    at += L
                else:
                    continue
                data = data[:at]
            files = ops.write_files({"a": data})
            todo = [stem_op(SCAN, RADII[1]), "reset", radial_op(SCAN), "reset"] * 2
            want = ["error", "ok", "error", "ok"] * 2
            if what == "outside":
                todo += [stem_op((7, 1), RADII[1]), "reset", radial_op((7, 1))]
                want += [stem_text(ref_stem(frames, nums, (7, 1), RADII[1]), (7, 1)), "ok", radial_text(ref_radial(frames, nums, (7, 1)), (7, 1))]
            m = compare(ctx, f"{what} {k} in blocks of {comp}", todo, ops.run(ops.scenario("stream", 1, 1, files, todo)), want)
            if m:
                return m
    return None


def do_sched(ctx, name, op, bound, part, parts):
    shape, scan, positions, pairs = S[name]
    frames, numbers, comp = [], [], []
    for b in positions:
        comp.append(len(b))
        for p in b:
            frames.append(frame(len(frames), shape))
            numbers.append(p)
    data = v1_file(group(frames, numbers, comp))
    bad = name.startswith("outside") or name.startswith("cut")
    if name.startswith("cut"):
        data = data[:-1]
    files = ops.write_files({"a": data})
    if bad:
        stem = radial = "error"
    else:
        stem = stem_text(ref_stem(frames, numbers, scan, pairs), scan)
        radial = radial_text(ref_radial(frames, numbers, scan), scan)
    todo = {"stem": [stem_op(scan, pairs)], "radial": [radial_op(scan)], "both": [radial_op(scan), "reset", stem_op(scan, pairs)]}[op]
    want = {"stem": [stem], "radial": [radial], "both": [radial, "ok", stem]}[op]
    stats, outcomes = ops.explore(ops.scenario("stream", 1, 1, files, todo, bound=bound, part=part, parts=parts), CASE_TIMEOUT - 20)
    ops.note(ctx, stats)
    for schedule, got in outcomes:
        m = compare(ctx, f"'{name}'", todo, got, want)
        if m:
            return f"{m}\nschedule {schedule}"
    return None


# ---------------------------------------------------------------- Python
def strided(a):
    b = np.zeros((a.shape[0] * 2, a.shape[1] + 1, a.shape[2] * 3), a.dtype)
    b[::2, 1:, ::3] = a
    return b[::2, 1:, ::3]


LAYOUTS = {"C": lambda a: a, "F": np.asfortranarray, "strided": strided, "big-endian": lambda a: a.astype(">u2")}


def do_python(ctx, k, block_size, layout):
    from stempy.io import PyReader
    from stempy.image import create_stem_images, radial_sum
    shape = (3, 5)
    a = np.array([frame(i, shape) for i in range(k)])
    before = a.copy()
    data = LAYOUTS[layout](a)
    for numbers in NUMBERS:
        numbers = numbers[:k]
        for center in ((-1, -1), (0, 2), (4, 1)):
            for dims in ((0, 0), SCAN, (6, 2)):
                scan = SCAN if dims == (0, 0) else dims
                what = f"{k} frames ({layout}) at {numbers}, block size {block_size}, centre {center}, scan {dims}"
                for pairs in RADII[:3]:
                    r = PyReader(data, numbers, SCAN, block_size, k)
                    got = create_stem_images(r, [p for p, _ in pairs], [p for _, p in pairs], scan_dimensions=dims, center=center)
                    want = ref_stem(a, numbers, scan, pairs, center).reshape(len(pairs), scan[1], scan[0])
                    ctx.step((what, got.tobytes()))
                    if got.shape != want.shape or not (got == want).all():
                        return f"create_stem_images of {what}, {pairs}: {got.tolist()}, expected {want.tolist()}"
                    r.reset()
                    again = create_stem_images(r, tuple(p for p, _ in pairs), tuple(p for _, p in pairs), dims, center)
                    if not np.array_equal(got, again):
                        return f"{what}: differs the second time"
                r = PyReader(data, numbers, SCAN, block_size, k)
                got = radial_sum(r, center=center, scan_dimensions=dims)
                want = ref_radial(a, numbers, scan, center)
                want = want.reshape(len(want), scan[1], scan[0])
                ctx.step((what, got.tobytes()))
                if got.shape != want.shape or not (got == want).all():
                    return f"radial_sum of {what}: {got.tolist()}, expected {want.tolist()}"
    if not np.array_equal(a, before):
        return "the data of the caller was changed"
    return None


def do_array(ctx, k, layout):
    from stempy.image import create_stem_images
    a = np.array([frame(i, (3, 4)) for i in range(k)])
    data = LAYOUTS[layout](a)
    dims = [(k, 1), (1, k), (k + 3, 2)]
    for d in dims:
        for inner, outer in ((0, 3), ([0], [9]), ((0, 1, 0), (1, 2, 9))):
            pairs = [(inner, outer)] if np.isscalar(inner) else list(zip(inner, outer))
            for center in ((-1, -1), (1, 0)):
                got = create_stem_images(data, inner, outer, scan_dimensions=d, center=center)
                want = ref_stem(a, range(k), d, pairs, center).reshape(len(pairs), d[1], d[0])
                ctx.step((k, layout, d, got.tobytes()))
                if got.shape != want.shape or not (got == want).all():
                    return f"create_stem_images of an array of {k} frames ({layout}), scan {d}, {pairs}: {got.tolist()}, expected {want.tolist()}"
    return None


BIG = [(576, 576), (100, 700), (1, 70000), (70000, 1), (300, 257)]


def do_big(ctx, shape, content):
    """Frames whose sums are above 2^32, and many of them at a position"""
    from stempy.io import PyReader
    from stempy.image import create_stem_images, radial_sum
    h, w = shape
    n = 70
    kinds = [np.full(shape, 65535, np.uint16)] * 2 if content == "full" else [((np.arange(h * w, dtype=np.int64) * 7919 + k * 31) % 65536).astype(np.uint16).reshape(shape) for k in range(2)]
    which = [(k * k) % 3 % 2 for k in range(n)]
    numbers = [[2, 0][k % 8 == 0] for k in range(n)]

    class Data:
        """The frames, without having all of them in memory"""
        shape = (n, h, w)

        def __getitem__(self, s):
            return np.array([kinds[i] for i in which[s]])
    y, x = np.mgrid[0:h, 0:w]
    count = np.zeros((2, 3), dtype=object)
    for f, p in zip(which, numbers):
        count[f, p] += 1
    for center in ((-1, -1), (0, 0), (w - 1, h // 3)):
        cx, cy = default(shape, center)
        d = (x - cx) ** 2 + (y - cy) ** 2
        pairs = [(0, 100000), (10, 250), (0, 1), (250, 300)]
        for block in (32, 7):
            r = PyReader(Data(), numbers, (3, 1), block, n)
            got = create_stem_images(r, [a for a, _ in pairs], [b for _, b in pairs], center=center)
            want = np.array([[int(sum(int(kinds[f][(d >= a * a) & (d < b * b)].sum(dtype=np.int64)) * count[f, p] for f in range(2))) for p in range(3)] for a, b in pairs], dtype=object).reshape(len(pairs), 1, 3)
            ctx.step((str(shape), content, center, block, got.tobytes()))
            if got.shape != want.shape or not (got == want).all():
                return f"create_stem_images of {n} frames of {shape} ({content}), centre {center}, block size {block}: {got.tolist()}, expected {want.tolist()}"
        # the smallest integer that is not less than the distance
        rad = np.floor(np.sqrt(d.astype(float))).astype(np.int64)
        rad -= rad * rad > d
        rad += (rad + 1) * (rad + 1) <= d
        rad += rad * rad < d
        radii = max(ceil_sqrt((a - cx) ** 2 + (b - cy) ** 2) for a in (0, w) for b in (0, h)) + 1
        per = [np.bincount(rad.ravel(), weights=k.ravel().astype(float), minlength=radii) for k in kinds]
        r = PyReader(Data(), numbers, (3, 1), 32, n)
        got = radial_sum(r, center=center)
        want = np.array([[int(per[0][i]) * count[0, p] + int(per[1][i]) * count[1, p] for p in range(3)] for i in range(radii)], dtype=object).reshape(radii, 1, 3)
        ctx.step((str(shape), content, center, got.tobytes()))
        if got.shape != want.shape or not (got == want).all():
            i = int(np.flatnonzero((got != want).any(axis=(1, 2)))[0]) if got.shape == want.shape else got.shape
            return f"radial_sum of {n} frames of {shape} ({content}), centre {center}: differs from radius {i} on"
    return None


def do_positions(ctx, k):
    """Scans with more than 2^16 positions"""
    from stempy.io import PyReader
    from stempy.image import create_stem_images, radial_sum
    scan = [(300, 300), (2, 66000)][k]
    n = scan[0] * scan[1]
    a = ((np.arange(n * 2, dtype=np.int64) * 31) % 65521).astype(np.uint16).reshape(n, 1, 2)
    numbers = (np.arange(n) * 7 % n).tolist()
    got = create_stem_images(PyReader(a, numbers, scan, 1000, n), [0, 0], [1, 5], center=(0, 0))
    want = np.zeros((2, n), np.uint64)
    want[0, numbers], want[1, numbers] = a[:, 0, 0], a.sum(axis=(1, 2))
    ctx.step((k, got.tobytes()))
    if got.shape != (2, scan[1], scan[0]) or not np.array_equal(got.reshape(2, n), want):
        return f"create_stem_images of a scan of {scan} differs"
    got = radial_sum(PyReader(a, numbers, scan, 1000, n), center=(0, 0))
    want[1, numbers] = a[:, 0, 1]
    ctx.step((k, got.tobytes()))
    if not np.array_equal(got.reshape(-1, n)[:2], want) or got.reshape(-1, n)[2:].any():
        return f"radial_sum of a scan of {scan} differs"
    return None


def do_pyerrors(ctx):
    from stempy.io import PyReader
    from stempy.image import create_stem_images, radial_sum
    a = np.array([frame(i, (3, 4)) for i in range(3)])
    bad = [("no scan size", lambda: create_stem_images(a, 0, 3)), ("small scan", lambda: create_stem_images(a, 0, 3, scan_dimensions=(2, 1))),
           ("radii", lambda: create_stem_images(a, [0, 1], [3], scan_dimensions=(3, 1))), ("no radii", lambda: create_stem_images(a, [], [], scan_dimensions=(3, 1))),
           ("outside", lambda: create_stem_images(PyReader(a, [0, 6, 1], SCAN, 1, 3), 0, 3)), ("outside", lambda: radial_sum(PyReader(a, [0, 1, 4000000000], SCAN, 2, 3))),
           ("no frames", lambda: create_stem_images(a[:0], 0, 3, scan_dimensions=(3, 1)))]
    for name, f in bad:
        try:
            r = f()
        except Exception:
            ctx.step(name)
            continue
        return f"{name}: no error but {r}"
    return None
