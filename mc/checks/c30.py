"""C30: arguments that do not fit together: every combination of fitting and not fitting arguments of the functions that compute in C++."""
import itertools, os, warnings
import numpy as np
from mc.checks import c05, c16, c27
from mc.sectors import *

NEEDS_ASAN = True
NEEDS_SMALL = True
PROPERTY = "C30"
BOUNDS = {"quick": "12 functions; of every argument the fitting and the not fitting values (frames of another size in any block, image numbers, scan sizes, radii, centres, dark references, gains, samples, blocks, bins, events), and every combination of them",
          "thorough": "the same (the space is explored completely)"}
ASSUMPTIONS = ["scans have fewer than 2^32 positions", "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE)",
               "a dark reference or gain with as many values as a frame, but another shape, may be accepted or rejected",
               "any exception is an error message; what it says is not judged"]
CASE_TIMEOUT = 240
SHAPE = (6, 10)
DIMS = (3, 2)
NUMBERS = [4, 0, 3, 1, 5, 2]
OK, BAD, ANY = "fits", "does not fit", "either"


def setup():
    c16.setup()


# ------------------------------------------------------------------ the arguments: name -> [(label, verdict)]
FRAMES = [("fit", OK)] + [(f"{s}{j}", BAD) for s in ("short", "narrow", "tall", "turned", "empty") for j in (0, 1, 2)]
SCANS = {"header": OK, (3, 2): OK, (2, 3): OK, (1, 6): OK, (7, 9): OK, (3, 0): OK, (0, 1): OK, (5, 1): BAD, (1, 1): BAD, (-3, -2): BAD, (-1, 6): BAD, (1.5, 4): BAD, (3,): BAD, (3, 2, 1): BAD, None: BAD}
RADII = {((0, 2), (3, 6)): OK, ((1,), (4,)): OK, ((5,), (2,)): OK, ((0, 0, 0), (0, 50, 2**31 - 1)): OK, ((-2,), (3,)): OK,
         ((), ()): BAD, ((0, 2), (3,)): BAD, ((0,), (3, 6)): BAD, ((0,), ()): BAD, ((), (4,)): BAD, ((0.5,), (2,)): BAD, (None, (2,)): BAD}
CENTERS = {(-1, -1): OK, (0, 0): OK, (5, 3): OK, (100, -1): OK, (40, 70): OK, (9, 5): OK, (1.5, 2): BAD, (1,): BAD, None: BAD}
REFERENCES = {"none": OK, "fit": OK, "single": OK, "strided": OK, "integers": OK, "short": BAD, "narrow": BAD, "tall": BAD, "large": BAD, "two": BAD, "empty": ANY, "flat": ANY, "turned": ANY, "point": ANY, "text": BAD}
GAINS = dict(REFERENCES, integers=ANY)     # numpy does not invert integers
SAMPLES = {10: OK, 1: OK, 0: BAD, -1: BAD, -(2**31): BAD, 2**31: BAD, None: BAD}
BLOCKS = {1: OK, 3: OK, 0: BAD, -1: BAD, 4: BAD, None: BAD}
BINS = {1: OK, 7: OK, 0: BAD, -1: BAD, -(2**31): BAD, 2**31: BAD, None: BAD}
READS = {"numbers": {"fit": OK, "few": BAD, "more": OK, "negative": BAD, "outside": BAD, "none": BAD}, "count": {6: OK, 7: BAD, 100: BAD, -1: BAD, 2**32: BAD, None: BAD},
         "block": {1: OK, 2: OK, 4: OK, 6: OK, 10: OK, 0: BAD, -1: BAD, 2**32: BAD, None: BAD}}
EVENTS = {"fit": OK, "last": OK, "behind": BAD, "far": BAD, "negative": BAD, "strided": OK, "wide": OK}
FRAME_SIZES = {(10, 6): OK, (6, 10): OK, (60, 1): OK, (20, 9): OK, (10, 5): OK, (1, 1): OK, (0, 0): OK, (-10, -6): BAD, (10,): BAD}
SPARSE_SCANS = {(3, 2): OK, (6, 1): OK, (4, 4): OK, (5, 1): BAD, (0, 0): BAD, (-3, -2): BAD, (1,): BAD}


def frames_of(label, content):
    """The frames of three blocks"""
    blocks = [np.array(content[i:i + 2]) for i in (0, 2, 4)]
    if label != "fit":
        j = int(label[-1])
        h, w = SHAPE
        s = {"short": (h - 1, w), "narrow": (h, w - 1), "tall": (h + 3, w), "turned": (w, h), "empty": (0, w)}[label[:-1]]
        b = np.zeros((2,) + s, np.uint16)
        hh, ww = min(h, s[0]), min(w, s[1])
        b[:, :hh, :ww] = blocks[j][:, :hh, :ww]
        blocks[j] = b
    return blocks


class DataSet:
    def __init__(self, blocks):
        self.blocks = blocks

    def __getitem__(self, key):
        return self.blocks[key.start // 2].copy()


def open_reader(source, blocks, numbers=NUMBERS, dims=DIMS):
    from stempy.io import PyReader, reader
    if source == "py":
        return PyReader(DataSet(blocks), numbers, dims, 2, 6)
    p = os.path.join(c16.scratch(), "a.data")
    with open(p, "wb") as f:
        f.write(c16.v1_file([(list(b), numbers[2 * i:2 * i + 2]) for i, b in enumerate(blocks)]))
    return reader([p], version=1)


def reference(label, shape, base):
    h, w = shape
    if label == "none":
        return None
    if label in ("fit", "single", "strided", "integers"):
        r = np.asarray(base, {"single": np.float32, "integers": np.int64}.get(label, np.float64))
        if label == "strided":
            big = np.zeros((h, 2 * w), r.dtype)
            big[:, ::2] = r
            return big[:, ::2]
        return r
    if label == "text":
        return "no reference"
    s = {"short": (h - 1, w), "narrow": (h, w - 1), "tall": (h + 3, w), "large": (300, 300), "two": (2, h, w), "empty": (0, 0), "flat": (h * w,), "turned": (w, h), "point": (1, 1)}[label]
    return np.ones(s, np.float64)


def verdict(*vs):
    return BAD if BAD in vs else ANY if ANY in vs else OK


def kept(args):
    return [np.array(a) if isinstance(a, np.ndarray) else a for a in args]


def same(a, b):
    return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def attempt(f):
    """("ok", result) or ("error", the exception)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", f()
    except Exception as e:
        if isinstance(e, MemoryError) or "alloc" in str(e):
            return "memory", e
        return "error", e


def judge(ctx, what, call, v, compare, arrays=()):
    """Makes the call; None or what is wrong. compare(result) judges a result"""
    before = kept(arrays)
    for again in (False, True):     # an error must not change what comes afterwards
        how, res = attempt(call)
        ctx.step((what, how, type(res).__name__, again))
        ctx.count(f"calls that ended with {'an error' if how == 'error' else 'a result'}")
        if how == "memory":
            return f"{what}: {type(res).__name__}: {res}"
        if not same(before, arrays):
            return f"{what}: the arguments have been changed"
        if how == "error":
            if v == OK:
                return f"{what}: raised {type(res).__name__}: {res}"
        elif v == BAD:
            return f"{what}: returned a result instead of raising an error"
        elif v == OK:
            m = compare(res)
            if m:
                return f"{what}: {m}"
    return None


def images_like(got, want, scan):
    got = np.asarray(got)
    if got.shape != (len(want), scan[1], scan[0]):
        return f"returned shape {got.shape}, the scan is {scan}"
    if not (got.reshape(len(want), -1).astype(object) == want).all():
        return f"returned {got.tolist()}, expected {want.tolist()}"
    return None


def effective(scan, numbers=NUMBERS):
    return DIMS if scan == "header" or 0 in scan else scan


def scan_kw(scan):
    return {} if scan == "header" else {"scan_dimensions": scan}


def in_scan(source, scan, v):
    # files of version 1 have no scan size
    if source == "v1" and v == OK and (scan == "header" or 0 in scan):
        return BAD
    return v


# ------------------------------------------------------------------ the functions
def do_stem(ctx, source, op, frames, fv):
    from stempy import image as I
    content = c27.content(0, SHAPE)
    blocks = frames_of(frames, content)
    r = open_reader(source, blocks)
    for (radii, rv), (scan, sv), (center, cv) in itertools.product(RADII.items(), SCANS.items(), CENTERS.items()):
        if [rv, sv, cv].count(BAD) > 1 and fv == BAD:
            continue        # three reasons
        v = verdict(fv, rv, in_scan(source, scan, sv), cv)
        kw = dict(center=center, **scan_kw(scan))
        inner, outer = (None if x is None else list(x) for x in radii)
        what = f"{op} of {source} frames ({frames}), radii {radii}, {kw}"

        def call():
            r.reset()
            return I.create_stem_images(r, inner, outer, **kw)
        m = judge(ctx, what, call, v, lambda res: images_like(res, c05.ref_stem(content, NUMBERS, effective(scan), list(zip(inner, outer)), center), effective(scan)))
        if m:
            return m
    return None


def do_hist(ctx, source, frames, fv):
    from stempy import image as I
    content = c27.content(0, SHAPE)
    r = open_reader(source, frames_of(frames, content))
    for (radii, rv), (scan, sv), (bins, bv) in itertools.product(RADII.items(), SCANS.items(), BINS.items()):
        v = verdict(fv, rv, in_scan(source, scan, sv), bv)
        inner, outer = (None if x is None else list(x) for x in radii)
        kw = scan_kw(scan)

        def call():
            r.reset()
            return I.create_stem_histogram(bins, r, inner, outer, **kw)

        def compare(res):
            n = effective(scan)[0] * effective(scan)[1]
            if [len(b) for b in res[0]] != [bins + 1] * len(inner) or [len(f) for f in res[1]] != [bins] * len(inner):
                return f"returned {len(res[0])} and {len(res[1])} lists of sizes {[len(b) for b in res[0]]} and {[len(b) for b in res[1]]}"
            want = c05.ref_stem(content, NUMBERS, effective(scan), list(zip(inner, outer)))
            for b, f, w in zip(res[0], res[1], want):
                if b[0] != min(w) or b[-1] != max(w) or bins == 7 and min(w) < max(w) and sum(f) != n:
                    return f"returned bins {list(b)} and {list(f)} for the values {w.tolist()}"
            return None
        m = judge(ctx, f"histogram of {source} frames ({frames}), radii {radii}, {bins} bins, {kw}", call, v, compare)
        if m:
            return m
    return None


def do_radial(ctx, source, frames, fv):
    from stempy import image as I
    content = c27.content(0, SHAPE)
    r = open_reader(source, frames_of(frames, content))
    for (scan, sv), (center, cv) in itertools.product(SCANS.items(), CENTERS.items()):
        v = verdict(fv, in_scan(source, scan, sv), cv)
        kw = dict(center=center, **scan_kw(scan))

        def call():
            r.reset()
            return I.radial_sum(r, **kw)

        def compare(res):
            want = c05.ref_radial(content, NUMBERS, effective(scan), center)
            return images_like(res, want, effective(scan))
        m = judge(ctx, f"radial sum of {source} frames ({frames}), {kw}", call, v, compare)
        if m:
            return m
    return None


def do_pattern(ctx, source, frames, fv):
    from stempy import image as I
    from stempy.io import PyReader
    content = c27.content(0, SHAPE)
    r = open_reader(source, frames_of(frames, content))

    def average():
        r.reset()
        return I.calculate_average(r)
    want = np.mean(np.array(content), axis=0)
    m = judge(ctx, f"average of {source} frames ({frames})", average, fv, lambda res: None if np.allclose(res, want, rtol=1e-12) else f"returned {np.asarray(res).tolist()}")
    if m:
        return m

    def image_of(shape):
        return I.calculate_average(PyReader(np.ones((2,) + shape, np.uint16) * 3, [0, 1], (2, 1), 1, 2))
    images = {("image", s): (OK if s == SHAPE else BAD) for s in (SHAPE, (5, 10), (6, 9), (9, 10), (10, 6), (1, 1), (1, 2), (60, 1), (300, 300))}
    for label, dv in list({k: BAD if v == ANY or k == "turned" else v for k, v in REFERENCES.items()}.items()) + list(images.items()):
        dark = image_of(label[1]) if isinstance(label, tuple) else reference(label, SHAPE, np.arange(60).reshape(SHAPE))
        used = np.zeros(SHAPE) if dark is None else dark
        top = np.max(np.array(content), axis=0)

        def call():
            r.reset()
            return I.maximum_diffraction_pattern(r, dark)
        m = judge(ctx, f"maximum of {source} frames ({frames}), dark reference {label}", call, verdict(fv, dv),
                  lambda res: None if np.array_equal(res, top - np.asarray(used, float)) else f"returned {np.asarray(res).tolist()}", [dark])
        if m:
            return m
    return None


def do_count(ctx, source, frames, fv, darks):
    for dark_label in darks:
        dv = REFERENCES[dark_label]
        for gain_label, gv in GAINS.items():
            dark = reference(dark_label, SHAPE, c16.dark_ref("low", SHAPE))
            gain = reference(gain_label, SHAPE, c16.gain_ref("pattern", SHAPE))
            content = [c16.raw(i, SHAPE, dark if dv == OK else None, gain if gv == OK else None) for i in range(6)]
            r = open_reader(source, frames_of(frames, content))
            m = counting(ctx, f"count of {source} frames ({frames}), dark {dark_label}, gain {gain_label}", r, content, source, verdict(fv, dv, gv), dark, gain, dark_label == gain_label, BLOCKS)
            if m:
                return m
    return None


def counting(ctx, what, r, content, source, rest, dark, gain, all_options, blocks_alts, shape=SHAPE):
    for (scan, sv), (samples, nv), (blocks, bv) in itertools.product(SCANS.items(), SAMPLES.items(), blocks_alts.items()):
        if [sv, nv, bv].count(BAD) > 1 or not all_options and (nv, bv) != (OK, OK):
            continue
        v = verdict(rest, in_scan(source, scan, sv), nv, bv)
        kw = dict(number_of_samples=samples, threshold_num_blocks=blocks, **scan_kw(scan))

        # the threaded readers can be used once
        def call():
            if not callable(r):
                r.reset()
            return c16.count(r() if callable(r) else r, darkreference=dark, gain=gain, **kw)

        def compare(arr):
            dark_used, gain_used = (None if x is None else np.asarray(x, np.float32) for x in (dark, gain))
            return c16.judge("it", arr, [source, 5], "single", content, dark_used, gain_used, False, c16.thresholds(shape, gain_used, samples, 4, 10), effective(scan))
        m = judge(ctx, f"{what}, {kw}", call, v, compare, [dark, gain])
        if m:
            return m
    return None


def do_threaded(ctx, backend, darks):
    for dark_label in darks:
        dv = REFERENCES[dark_label]
        for gain_label, gv in GAINS.items():
            s = (FRAME, FRAME)
            dark, gain = reference(dark_label, s, c16.dark_ref("low", s)), reference(gain_label, s, c16.gain_ref("pattern", s))
            content = [c16.raw(i, s, dark if dv == OK else None, gain if gv == OK else None) for i in range(6)]
            def r():
                return c16.make_reader(backend, "single", content)[0]
            m = counting(ctx, f"count of {backend} files, dark {dark_label}, gain {gain_label}", r, content, "thread", verdict(dv, gv), dark, gain, dark_label == gain_label, {k: v for k, v in BLOCKS.items() if k != 4}, s)
            if m:
                return m
    return None


def do_reader(ctx):
    """The arguments of the reader of a data set"""
    from stempy import image as I
    from stempy.io import PyReader
    content = c27.content(0, SHAPE)
    data = np.array(content)
    for (numbers, nv), (count, cv), (block, bv), (scan, sv) in itertools.product(READS["numbers"].items(), READS["count"].items(), READS["block"].items(), SCANS.items()):
        values = {"fit": NUMBERS, "few": NUMBERS[:5], "more": NUMBERS + [0, 1], "negative": [4, 0, -3, 1, 5, 2], "outside": [4, 0, 3, 1, 6000, 2], "none": None}[numbers]

        def call():
            r = PyReader(data, values, DIMS if scan == "header" else scan, block, count)
            return I.create_stem_images(r, [0, 2], [3, 6])
        if scan != "header" and sv == OK and 0 in scan:
            sv = BAD
        m = judge(ctx, f"reader of a data set, image numbers {numbers}, {count} images in blocks of {block}, scan {scan}", call, verdict(nv, cv, bv, sv),
                  lambda res: images_like(res, c05.ref_stem(content, NUMBERS, effective(scan), [(0, 3), (2, 6)]), effective(scan)))
        if m:
            return m
    return None


class Counted:
    """Like electron counted data of version 1"""
    def __init__(self, data, scan, frame):
        self.data, self.scan_dimensions, self.frame_dimensions = data, scan, frame


def do_sparse(ctx, kind, events, per):
    from stempy import image as I
    from stempy.io import SparseArray
    for pos, slot in itertools.product(range(6), range(per)) if EVENTS[events] == BAD or events == "last" else [(0, 0)]:
        lists = [[sorted({(p * 7 + f * 5 + j * 4) % 50 for j in range((p + f) % 4)} | {49}) for f in range(per)] for p in range(6)]
        add = {"last": 59, "behind": 60, "far": 2**32 - 1, "negative": -1}.get(events)
        if add is not None:
            lists[pos][slot].append(add)
        data = np.empty((6, per), dtype=object)
        for p in range(6):
            for f in range(per):
                a = np.array(lists[p][f], dtype=np.int64 if events in ("negative", "wide") else np.uint32)
                data[p, f] = np.repeat(a, 2)[::2] if events == "strided" else a
        for (size, fv), (scan, sv), (radii, rv), (center, cv) in itertools.product(FRAME_SIZES.items(), SPARSE_SCANS.items(), RADII.items(), CENTERS.items()):
            if [fv, sv, rv, cv].count(BAD) + (size[0] < 10) > 1 or EVENTS[events] == BAD and center != (-1, -1):
                continue
            v = ANY
            if fv == OK:
                v = OK if all(0 <= e < size[0] * size[1] for row in lists for one in row for e in one) else BAD
            # a sparse array has exactly the positions of its scan
            v = verdict(v, fv, BAD if kind == "sparse" and scan == (4, 4) else sv, rv, cv)
            inner, outer = (None if x is None else list(x) for x in radii)

            def call():
                if kind == "sparse":
                    return I.create_stem_images(SparseArray(data, scan[::-1], size[::-1]), inner, outer, center=center)
                if kind == "counted":
                    return I.create_stem_images(Counted(data, scan, size), inner, outer, center=center)
                return I.create_stem_images(data[:, 0] if kind == "array-1d" else data, inner, outer, scan_dimensions=scan, frame_dimensions=size, center=center)

            def compare(res):
                frames = []
                for row in lists:
                    f = np.zeros(size[0] * size[1], int)
                    for one in row:
                        np.add.at(f, one, 0xFFFF)
                    frames.append(f.reshape(size[::-1]))
                return images_like(res, c05.ref_stem(frames, range(6), scan, list(zip(inner, outer)), center), scan)
            m = judge(ctx, f"images of {kind} data with {per} frames per position, events {events} (position {pos}, frame {slot}), frame size {size}, scan {scan}, radii {radii}, center {center}", call, v, compare)
            if m:
                return m
    return None


def run_case(case, ctx):
    return globals()["do_" + case[0]](ctx, *case[1:])


def cases(tier):
    out = []
    labels = list(REFERENCES)
    for source in ("py", "v1"):
        for f, v in FRAMES:
            if source == "v1" and f[:5] == "empty":
                continue
            out += [["stem", source, "images", f, v], ["hist", source, f, v], ["radial", source, f, v], ["pattern", source, f, v]]
            out += [["count", source, f, v, [d]] for d in (labels if v == OK else ("none", "short"))]
    out.append(["reader"])
    out += [["sparse", k, e, per] for k in ("sparse", "counted", "array", "array-1d") for e in EVENTS for per in (1, 2) if k != "array-1d" or per == 1]
    for b in (["thread", 4, 2], ["thread", 5, 2], ["multi-pass", 5, 2]):
        out += [["threaded", b, [d]] for d in labels]
    return out
