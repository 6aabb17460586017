"""C15: what was handed to Python stays valid and unchanged, whatever is done with the reader afterwards: every sequence of operations."""
import gc, itertools, os, shutil, tempfile, warnings
import numpy as np
from mc.checks import c16
from mc.checks.c05 import ref_stem, ref_radial
from mc.sectors import *

NEEDS_ASAN = True
NEEDS_SMALL = True
PROPERTY = "C15"
BOUNDS = {"quick": "every sequence of 4 (PyReader, version 1, threaded, multi-pass) or 3 operations (5 other kinds of readers) out of 6 to 11 (read a block, keep only its array, rewind, average, maximum, STEM images, radial sum, count, load frames, change what was returned, drop half of what is held, delete the reader); everything obtained so far is compared after every operation, with AddressSanitizer",
          "thorough": "as quick with sequences of 5"}
ASSUMPTIONS = ["8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE)", "a block of a PyReader may share the memory of the array it was made from"]
CASE_TIMEOUT = 300
setup = c16.setup

KINDS = {"py": ["py", 2], "py-copy": ["py", 2], "h5": ["h5", "positions"], "v1": ["v1", 2], "v3": ["v3", 2], "seq4": ["seq", 4], "seq5": ["seq", 5], "thread": ["thread", 5, 2], "multi-pass": ["multi-pass", 5, 2]}
SEQUENTIAL = ["read", "array", "reset", "average", "maximum", "stem", "radial", "count", "write", "drop", "delete"]
OPS = {k: SEQUENTIAL for k in KINDS}
OPS["thread"] = ["count", "stemcount", "write", "drop", "delete", "slice"]
OPS["multi-pass"] = ["load", "loadarray", "loadall", "count", "stemcount", "write", "drop", "delete"]
DEPTH = {"quick": {"py": 4, "multi-pass": 4, "thread": 4, "v1": 4}, "thorough": {k: 5 for k in KINDS}}


def cases(tier):
    out = []
    for k in KINDS:
        n = DEPTH[tier].get(k, 3)
        for first in itertools.product(range(len(OPS[k])), repeat=2):
            out.append(["seq", k, list(first), n])
    return out


class World:
    def __init__(self, kind):
        self.kind, self.backend = kind, KINDS[kind]
        self.name = "repeated" if self.backend[0] in ("thread", "multi-pass") else "single"
        self.shape = c16.shape_of(self.backend)
        self.dims, self.fr = c16.RECORDINGS[self.name]
        self.frames = [c16.raw(k, self.shape, None, None) for k in range(len(self.fr))]
        self.source = self.frames
        if kind == "py-copy":
            # not in the type that is needed, so that the blocks are copies
            self.source = [f.astype(np.int32) for f in self.frames]
        self.reader, _ = c16.make_reader(self.backend, self.name, self.source)
        self.held = []          # [what, object that is kept, how to see its content, expected content, may it be written to]
        self.numbers = [p for p, _, _ in self.fr]

    def hold(self, what, keep, array, want=None, own=False):
        """array() gives the content at any later time; own: it may be written to"""
        now = array()
        if want is not None and not (now.shape == want.shape and np.array_equal(now, want)):
            return f"{what} is {now.tolist()}, expected {np.asarray(want).tolist()}"
        self.held.append([what, keep, array, now.copy(), own])
        return None

    def check(self):
        for what, keep, array, want, own in self.held:
            now = array()
            if now.shape != want.shape or not np.array_equal(now, want):
                return f"{what} has changed to {now.tolist()[:3]}, it was {want.tolist()[:3]}"
        return None

    def frame(self, number):
        return self.frames[self.numbers.index(number)]

    def block(self, b, keep_block=True):
        want = np.array([self.frame(n) for n in b.header.image_numbers])
        arr = b.data
        head = b.header
        m = None
        if keep_block:
            m = self.hold("the header of a block", head, lambda h=head: np.array(list(h.image_numbers) + list(h.scan_dimensions) + list(h.frame_dimensions)))
        return m or self.hold("the data of a block", (arr, b._block) if keep_block else None, lambda a=arr: a, want, self.kind != "py")

    def results(self, what, arr, want, rtol=None):
        if rtol is not None:
            if not np.allclose(arr, want, rtol=rtol):
                return f"{what}: {arr.tolist()}, expected {want.tolist()}"
            want = None
        return self.hold(what, None, lambda a=arr: a, want, True)

    def do(self, op):
        from stempy.image import calculate_average, maximum_diffraction_pattern, create_stem_images, radial_sum
        from stempy.io import SparseArray
        r = self.reader
        if op == "drop":
            # only half of it, the others are kept
            self.held = self.held[1::2]
            gc.collect()
            return None
        if op == "delete":
            self.reader = None
            del r
            gc.collect()
            return None
        if op == "write":
            # what was handed out belongs to the caller: writing to it must not change anything else
            for h in self.held:
                if h[4]:
                    a = h[2]()
                    a += a.dtype.type(1)
                    h[3] = h[3] + a.dtype.type(1)
            return None
        if r is None:
            return None
        if op == "slice":
            return self.slices(r)
        if op in ("read", "array"):
            b = r.read()
            if b is None:
                return None
            return self.block(b, op == "read")
        if op == "reset":
            r.reset()
            return None
        if op in ("average", "maximum", "stem", "radial"):
            r.reset()
        if op == "average":
            return self.results("the average", calculate_average(r), np.mean(np.array(self.frames, dtype=float), axis=0), 1e-12)
        if op == "maximum":
            return self.results("the maximum", maximum_diffraction_pattern(r), np.array(self.frames).max(axis=0))
        if op == "stem":
            want = ref_stem(self.frames, self.numbers, self.dims, [(0, 3), (2, 6)]).astype(np.uint64).reshape(2, self.dims[1], self.dims[0])
            return self.results("the STEM images", create_stem_images(r, [0, 2], [3, 6], scan_dimensions=self.dims), want)
        if op == "radial":
            want = ref_radial(self.frames, self.numbers, self.dims).astype(np.uint64).reshape(-1, self.dims[1], self.dims[0])
            return self.results("the radial sum", radial_sum(r, scan_dimensions=self.dims), want)
        if op in ("count", "stemcount"):
            if self.backend[0] not in ("thread", "multi-pass"):
                r.reset()
            arr = self.counted(r)
            if op == "stemcount":
                # only the images are kept, or the object that was counted
                cpp = arr._electron_counted_data
                a = create_stem_images(arr, 1, 5)
                m = self.hold("the STEM image of the counts", None, lambda: a, None, True)
                return m or self.hold("the C++ counts", cpp, lambda: np.concatenate([np.asarray(f) for p in cpp.data for f in p]))
            th = c16.thresholds(self.shape, None, 10, 4, 10)
            m = c16.judge("count", arr, self.backend, self.name, self.frames, None, None, None, th, self.dims)
            if m:
                return m
            for p in (0, 1):
                for j in range(arr.data.shape[1]):
                    e = arr.data[p, j]
                    m = m or self.hold(f"the events of position {p}", None, lambda e=e: e)
            m = m or self.hold("all events", arr, lambda: np.array([sum(len(f) for f in p) for p in arr.data]))
            return m or self.hold("the dense counts", None, lambda d=arr[0:1].to_dense(): d, None, True)
        if op in ("load", "loadarray", "loadall"):
            p = (len(self.held) % 2)
            at = [px for (q, f, _), px in sorted(zip(self.fr, self.frames), key=lambda x: x[0][1]) if q == p]
            if op == "loadall":
                blocks = r.read_frames(0)
                at = [px for (q, f, _), px in sorted(zip(self.fr, self.frames), key=lambda x: x[0][1]) if q == 0]
            else:
                blocks = [r.read_frames(p, 0)]
            m = None
            for b, px in zip(blocks, at):
                a = b.data
                m = m or self.hold("a frame that was loaded", None if op == "loadarray" else (b, b._block), lambda a=a: a, px, True)
            return m
        raise KeyError(op)

    def counted(self, r):
        arr = c16.count(r, number_of_samples=10, scan_dimensions=self.dims)
        if self.kind == "thread":
            # it has read everything; go on with another one on the same files
            self.reader, _ = c16.make_reader(self.backend, self.name, self.source)
        return arr

    def slices(self, r):
        arr = self.counted(r)
        s = arr[0:1, :]
        d = arr.copy() if hasattr(arr, "copy") else arr
        m = self.hold("a slice of the counts", s, lambda: s.to_dense())
        return m or self.hold("a copy of the counts", d, lambda: np.concatenate([np.asarray(f) for f in d.data.ravel()]))


def do_seq(ctx, kind, first, depth):
    names = OPS[kind]
    for rest in itertools.product(range(len(names)), repeat=depth - len(first)):
        seq = [names[i] for i in list(first) + list(rest)]
        if "delete" in seq and any(x not in ("drop", "write") for x in seq[seq.index("delete") + 1:]):
            continue            # without a reader there is nothing to do
        w = World(kind)
        for i, op in enumerate(seq):
            m = w.do(op) or w.check()
            ctx.step((kind, tuple(seq[:i + 1])))
            if m:
                return f"{kind}: after {seq[:i + 1]}: {m}"
    return None


def run_case(case, ctx):
    return globals()["do_" + case[0]](ctx, *case[1:])
