"""C28: calls in progress: everything that may happen while a call waits for its data, in the same and in other Python threads."""
import itertools, os, struct, threading, time, warnings
import numpy as np
from mc.checks import c16, c27
from mc.checks.c16 import v1_file
from mc.sectors import *

NEEDS_ASAN = True
NEEDS_SMALL = True
PROPERTY = "C28"
BOUNDS = {"quick": "{ops} calls that read from a Python data set (blocks of 1, 2, 3 or 6 frames): at every one of their accesses each of {inner} other calls of C27's pool is made, by the data set itself and by another thread; "
                   "all interleavings of the accesses of two threads (every ordered pair of the calls with blocks of 2 frames, own or shared data sets and dark references) and of three threads (blocks of 6 and 3 frames); "
                   "an error raised, or too few or misshapen frames returned, at every access of every call, followed by the same call on the same reader and by each of the others; "
                   "5 kinds of file readers whose data arrives in a pipe: after every record (and in the middle of it) each of {few} other calls is made while the call waits",
          "thorough": "as quick, with all calls of the pool everywhere, two calls in a row at every access, and three threads with blocks of 2 frames"}
ASSUMPTIONS = ["what a call returns in a new process is right (the other properties judge that)", "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE)", "a data set returns new arrays",
               "every reader is used by one thread at a time", "pybind11's assertion that the GIL is held whenever a Python object is referenced or released is enabled"]
CASE_TIMEOUT = 300
DIMS = (3, 2)
N = 6


def setup():
    c16.setup()
    BOUNDS["quick"] = BOUNDS["quick"].format(ops=len(OPS), inner=len(inner("quick")), few=len(few()))


def inner(tier):
    """The calls that are made in between: of every function the first variant, and one with other dimensions"""
    if tier == "thorough":
        return list(c27.pool())
    seen = {}
    for n, p in c27.pool().items():
        seen.setdefault(p[0], []).append(n)
    return [n for f, names in seen.items() for n in (names if f == "py-options" else dict.fromkeys((names[0], names[-1])))]


def few():
    return [n for n in inner("quick") if n.split("/")[0] in ("py-2-stem", "py-2-radial", "py-2-average", "py-options", "seq-5-stem", "thread-5-2-count", "sparse-stem", "com1", "bin-frames", "save", "load")]


# ------------------------------------------------------------------ calls that read from a Python data set
class DataSet:
    """Calls before(k) at its k-th access. Returns new arrays."""
    def __init__(self, frames, before=None):
        self.frames, self.before, self.count = np.array(frames), before, 0

    def __getitem__(self, key):
        k, self.count = self.count, self.count + 1
        res = self.before(k) if self.before is not None else None
        return self.frames[key].copy() if res is None else res(self.frames[key].copy())


def op_list():
    from stempy import image as I
    radii = ([0, 2], [3, 6])
    ops = c27.reader_ops(DIMS, (-1, -1), radii)
    ops["maximum-dark"] = lambda r, dark=None: [r.reset(), I.maximum_diffraction_pattern(r, dark if dark is not None else c27_dark())][1:]
    ops["count-dark"] = lambda r, dark=None: c27.count(r, DIMS, darkreference=dark, gain=c16.gain_ref("pattern", (6, 10)))
    return ops


def c27_dark(op="", k=0):
    return c16.dark_ref(["low", "high"][k], (6, 10))


def content(op, k):
    """The frames of count-dark contain its dark reference and gain"""
    if op == "count-dark":
        return [c16.raw(i, (6, 10), c27_dark(op, k), c16.gain_ref("pattern", (6, 10))) for i in range(N)]
    return c27.content(k, (6, 10))


def same_frames(*ops):
    return len({op == "count-dark" for op in ops}) == 1


OPS = ["blocks", "average", "maximum", "stem", "hist", "radial", "count", "maximum-dark", "count-dark"]
_ops = {}


def call(op, reader, k, dark=None):
    dark = [dark if dark is not None else c27_dark(op, k)] if op.endswith("-dark") else []
    if not _ops:
        _ops.update(op_list())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return c27.canon(_ops[op](reader, *dark))


def py_reader(op, block, k=0, before=None, dataset=None):
    from stempy.io import PyReader
    d = dataset or DataSet(content(op, k), before)
    return PyReader(d, [4, 0, 3, 1, 5, 2], DIMS, block, N), d


_solo = {}


def solo(op, block, k=0):
    """(what the call returns alone, its number of accesses)"""
    if (op, block, k) not in _solo:
        def alone():
            r, d = py_reader(op, block, k)
            return (call(op, r, k), d.count)
        _solo[op, block, k] = c27.forked(alone)
    return _solo[op, block, k]


def baselines(names):
    for n in names:
        b = c27.baseline(n)
        if b[0] != "ok":
            return f"{n} alone: {b[1]}"
        c27.baseline_of[n] = b
    return None


def make_inner(name, slot):
    """Makes a call of the pool; None or what is wrong with it"""
    c27._slot = slot
    args = c27.pool()[name][1]()
    res, m = c27.attempt(name, args)
    if m:
        return m
    got = c27.canon(res)
    if got != c27.baseline_of[name][1]:
        return f"{name} returned {c27.show(got)}, alone it returns {c27.show(c27.baseline_of[name][1])}"
    return None


def in_thread(f):
    out = []

    def run():
        try:
            out.append(f())
        except BaseException as e:
            out.append(f"raised {type(e).__name__}: {e}")
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return out[0]


# what the error state of numpy and the like are is a matter of each thread, and of the call in progress
def do_nested(ctx, op, block, names, mode):
    c27.start()
    m = baselines({n for s in names for n in s})
    if m:
        return m
    want, accesses = solo(op, block)
    if want == "raised":
        return f"{op} alone: {accesses}"
    # many executions in one child; a failing one is then found again alone
    todo = [(k, s) for k in range(accesses) for s in names]

    def some(todo):
        for k, s in todo:
            problems = []

            def before(i):
                if i == k:
                    for j, n in enumerate(s):
                        m = make_inner(n, f"n{j}") if mode == "same" else in_thread(lambda: make_inner(n, f"n{j}"))
                        if m:
                            problems.append(m)
            r, d = py_reader(op, block, 0, before)
            got = call(op, r, 0)
            what = f"{op} (blocks of {block}), and at its access {k} {s} in {'the same' if mode == 'same' else 'another'} thread"
            if problems:
                return f"{what}: {problems[0]}"
            if got != want:
                return f"{what}: it returned {c27.show(got)}, alone it returns {c27.show(want)}"
        return None

    for i in range(0, len(todo), 40):
        part = todo[i:i + 40]
        for k, s in part:
            ctx.step((op, block, k, tuple(s), mode))
        m = c27.forked(lambda: some(part), 200)
        if m is not None:
            return m if isinstance(m, str) else f"{op} (blocks of {block}), one of {part[:3]}... ({mode}): {m[1]}"
    return None


# ------------------------------------------------------------------ threads
class Schedule:
    """Lets one of several threads run at a time, from one access of its data set to the next one"""
    def __init__(self, n):
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.done = [False] * n

    def wait(self, i):
        self.back.release()
        self.go[i].acquire()

    def run(self, bodies, order):
        results = [None] * len(bodies)

        def body(i):
            self.go[i].acquire()
            try:
                results[i] = bodies[i]()
            except BaseException as e:
                results[i] = ("raised", f"{type(e).__name__}: {e}")
            self.done[i] = True
            self.back.release()
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(bodies))]
        for t in ts:
            t.start()
        for i in order:
            if not self.done[i]:
                self.go[i].release()
                self.back.acquire()
        for i in range(len(bodies)):        # a thread that makes more accesses than alone
            while not self.done[i]:
                self.go[i].release()
                self.back.acquire()
        for t in ts:
            t.join()
        return results


def interleavings(counts):
    """Every order of counts[i] steps of thread i"""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                for rest in rec(left[:i] + (n - 1,) + left[i + 1:]):
                    yield (i,) + rest
    return rec(tuple(counts))


def do_threads(ctx, ops, block, shared, part=0, parts=1):
    c27.start()
    k_of = [0] * len(ops) if shared else [i % 2 for i in range(len(ops))]
    alone = [solo(op, block, k) for op, k in zip(ops, k_of)]
    for op, a in zip(ops, alone):
        if a[0] == "raised":
            return f"{op} alone: {a[1]}"
    orders = list(interleavings([a[1] + 1 for a in alone]))[part::parts]

    def some(orders):
        for order in orders:
            s = Schedule(len(ops))
            dark = c27_dark()
            here = threading.local()
            common = DataSet(content(ops[0], 0), lambda k: s.wait(here.i)) if shared else None

            def body(i, op):
                here.i = i
                r, d = py_reader(op, block, k_of[i], lambda k: s.wait(i), common)
                return call(op, r, k_of[i], dark if shared else None)
            got = s.run([lambda i=i, op=op: body(i, op) for i, op in enumerate(ops)], order)
            for i, op in enumerate(ops):
                if got[i] != alone[i][0]:
                    return f"threads with {ops} (blocks of {block}{', the same data set' if shared else ''}), accesses in the order {list(order)}: thread {i} got {c27.show(got[i])}, alone {c27.show(alone[i][0])}"
            if not np.array_equal(dark, c27_dark()):
                return f"threads with {ops}: the dark reference was changed"
        return None

    for i in range(0, len(orders), 70):
        part = orders[i:i + 70]
        for o in part:
            ctx.step((tuple(ops), block, shared, o))
        m = c27.forked(lambda: some(part), 200)
        if m is not None:
            return m if isinstance(m, str) else f"threads with {ops} (blocks of {block}): {m[1]}"
    return None


# ------------------------------------------------------------------ errors of the data set
class Broken(Exception):
    pass


def raising(e):
    raise e


FAULTS = {"error": lambda k: raising(Broken(k)), "interrupt": lambda k: raising(KeyboardInterrupt(k)), "io": lambda k: raising(OSError(5, f"access {k}")),
          "few": lambda k: lambda a: a[:-1], "flat": lambda k: lambda a: a.reshape(len(a), -1), "text": lambda k: lambda a: np.array([["x"]]), "none": lambda k: lambda a: np.array(None), "list": lambda k: lambda a: a.tolist()}
RAISES = {"error": Broken, "interrupt": KeyboardInterrupt, "io": OSError}


def rest_of(r):
    """The blocks that the reader has not returned yet, one by one"""
    out = []
    for b in r:
        out.append((list(b.header.image_numbers), b.data))
    return out


def do_raise(ctx, op, block, fault):
    c27.start()
    want, accesses = solo(op, block)
    others = {o: solo(o, 2, 1)[0] for o in OPS}

    def one(k, other):
        state = {"on": True}

        def before(i):
            if i == k and state["on"]:
                return FAULTS[fault](k)
        r, d = py_reader(op, block, 0, before)
        what = f"{op} (blocks of {block}) with a data set that gives '{fault}' at its access {k}"
        try:
            got = call(op, r, 0)
            if fault == "list":
                if got != want:
                    return f"{what} returned {c27.show(got)} instead of {c27.show(want)}"
            else:
                return f"{what} returned {c27.show(got)}, without an error"
        except BaseException as e:
            if fault in RAISES and type(e) is not RAISES[fault] or fault in ("error", "interrupt") and e.args != (k,):
                return f"{what} raised {type(e).__name__}: {e}"
            if fault == "list":
                return f"{what} raised {type(e).__name__}: {e}"
        state["on"] = False
        if not op.startswith("count") and fault != "list":      # what it did not get is read next
            rest = [c27.canon(b) for b in rest_of(r)]
            if rest != blocks[k:]:
                return f"{what}: reading on returned {c27.show(rest)} instead of {c27.show(blocks[k:])}"
        r2, _ = py_reader(other, 2, 1)
        got = call(other, r2, 1)
        if got != others[other]:
            return f"{what}: then {other} with another reader returned {c27.show(got)} instead of {c27.show(others[other])}"
        r.reset()
        got = call(op, r, 0)
        if got != want:
            return f"{what}: repeated with the same reader it returned {c27.show(got)} instead of {c27.show(want)}"
        if not same_frames(op, other):
            return None
        got = call(other, r, 0)
        w = solos[other]
        if got != w:
            return f"{what}: {other} with the same reader returned {c27.show(got)} instead of {c27.show(w)}"
        return None

    blocks = c27.forked(lambda: [c27.canon(b) for b in rest_of(py_reader(op, block)[0])])
    solos = {o: solo(o, block)[0] for o in OPS}

    def all_of_them():
        for k in range(accesses):
            for other in OPS:
                m = one(k, other)
                if m:
                    return m
        return None
    for k in range(accesses):
        for o in OPS:
            ctx.step((op, block, fault, k, o))
    m = c27.forked(all_of_them, 200)
    return m if m is None or isinstance(m, str) else f"{op} with '{fault}' (blocks of {block}): {m[1]}"


# ------------------------------------------------------------------ files whose data arrives slowly
def files_of(kind):
    """[file names], {name: [pieces]} : the one that arrives in pieces, cut after every record and in the middle of it"""
    shape = c16.shape_of(kind)
    frames = c27.content(0, shape)
    files = {}
    if kind[0] == "v1":
        blocks = [v1_file([(frames[i:i + 2], [4, 0, 3, 1, 5, 2][i:i + 2])]) for i in (0, 2, 4)]
        return ["a.data"], {"a.data": blocks}
    if kind[0] == "v3":
        return ["a.data"], {"a.data": [header(1, f, DIMS, p) + px.astype("<u2").tobytes() for (p, f, _), px in zip(c16.FULL, frames)]}
    files = sector_files(kind[1], [(p, f, px, sec) for (p, f, sec), px in zip(c16.FULL, frames)], DIMS)
    size = 16 + FRAME * FRAME // 4 * 2
    return list(files), {n: [c[i:i + size] for i in range(0, len(c), size)] for n, c in files.items()}


SLOW = {"v1": (["v1", 1], ["average", "maximum", "stem", "radial"]), "v3": (["v3", 1], ["average", "maximum", "stem", "radial"]), "seq4": (["seq", 4], ["average", "maximum", "stem", "radial"]),
        "seq5": (["seq", 5], ["average", "maximum", "stem", "radial"]), "thread": (["thread", 5, 2], ["count"]), "thread5": (["thread", 5, 5], ["count"])}


FIRST = 4      # half records that are there from the beginning


def slow_call(kind, op, arrives, between, slow):
    """Makes the call in a thread, with files that are pipes; between(i) is called when everything up to piece i has been taken. Returns the result"""
    import fcntl, termios
    from stempy import image as I
    from stempy.io import reader
    backend = SLOW[kind][0]
    names, pieces = files_of(backend)
    d = c27.fresh_dir("slow")
    paths, pipe = [], None
    for n in names:
        p = os.path.join(d, n)
        if n == slow:
            os.mkfifo(p)
            pipe = os.open(p, os.O_RDWR)
        else:
            with open(p, "wb") as o:
                o.write(b"".join(pieces[n]))
        paths.append(p)
    v = {"v1": 1, "v3": 3}.get(backend[0], backend[1])
    kw = {"backend": "thread", "threads": backend[2]} if backend[0] == "thread" else {}
    r = reader(paths, version=v, **kw)
    kw = dict(scan_dimensions=DIMS)
    f = {"average": lambda: I.calculate_average(r), "maximum": lambda: I.maximum_diffraction_pattern(r), "stem": lambda: I.create_stem_images(r, [0, 2], [3, 6], **kw),
         "radial": lambda: I.radial_sum(r, **kw), "count": lambda: c27.count(r, DIMS)}[op]
    out = []
    # the first blocks are read by begin(), which does not let other threads run
    todo = arrives(pieces[slow])
    first = min(FIRST, len(todo))
    for p in todo[:first]:
        os.write(pipe, p)

    def body():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out.append(c27.canon(f()))
            except BaseException as e:
                out.append(("raised", f"{type(e).__name__}: {e}"))
    t = threading.Thread(target=body)
    t.start()
    problem = None
    for i, p in enumerate(todo[first:], first):
        os.write(pipe, p)
        for _ in range(2000):       # until it has been taken
            if struct.unpack("i", fcntl.ioctl(pipe, termios.FIONREAD, b"\0" * 4))[0] == 0 or out:
                break
            time.sleep(0.0005)
        problem = problem or between(i)
    os.close(pipe)
    t.join()
    return out[0], problem


def halves(pieces):
    return [x for p in pieces for x in (p[:len(p) // 2], p[len(p) // 2:])]


def do_slow(ctx, kind, op, which, names):
    c27.start()
    m = baselines(names)
    if m:
        return m
    fnames, pieces = files_of(SLOW[kind][0])
    slow = fnames[which]
    want = c27.forked(lambda: slow_call(kind, op, lambda p: p, lambda i: None, slow)[0], 60)
    if want[0] == "raised":
        return f"{op} of {kind} alone: {want[1]}"
    places = range(FIRST, 2 * len(pieces[slow]))
    for at in places:
        def all_names():
            for n in names:
                got, m = slow_call(kind, op, halves, lambda i: make_inner(n, "other") if i == at else None, slow)
                what = f"{op} of {kind} files, while it waits for the {at + 1}. half record of {slow}: {n}"
                if m:
                    return f"{what}: {m}"
                if got != want:
                    return f"{what}: {op} returned {c27.show(got)}, otherwise {c27.show(want)}"
            return None
        for n in names:
            ctx.step((kind, op, which, at, n))
        m = c27.forked(all_names, 60)
        if m is not None:
            return m if isinstance(m, str) else f"{op} of {kind} files, waiting for half record {at + 1} of {slow}, and one of {names}: {m[1]}"
    return None


# ------------------------------------------------------------------ cases
def cases(tier):
    out = []
    names = inner(tier)
    for op in OPS:
        for block in (1, 2, 6) if tier == "quick" else (1, 2, 3, 4, 6):
            for mode in ("same", "other"):
                some = names if block == 2 or tier == "thorough" else few()
                out += [["nested", op, block, [[n] for n in some[i:i + 15]], mode] for i in range(0, len(some), 15)]
                if tier == "thorough" and block == 2:
                    out += [["nested", op, block, [[a, b] for b in few()], mode] for a in few()]
    for a in OPS:
        for b in OPS:
            for shared in (False, True) if same_frames(a, b) else (False,):
                out.append(["threads", [a, b], 2, shared])
                if tier == "thorough":
                    out += [["threads", [a, b, c], 3, shared, i, 12] for c in OPS if not shared or same_frames(a, c) for i in range(12)]
    if tier == "quick":
        out += [["threads", list(ops), 6, True, i, n] for ops in itertools.combinations_with_replacement(["average", "stem", "radial", "count", "maximum-dark"], 3) for n in [{3: 8, 2: 2}.get(ops.count("count"), 1)] for i in range(n)]
        out += [["threads", list(ops), 3, shared, i, 6] for ops in (["stem", "stem", "stem"], ["average", "radial", "maximum-dark"]) for shared in (False, True) for i in range(6)]
    out += [["raise", op, block, fault] for op in OPS for block in (1, 2, 6) for fault in FAULTS]
    for kind, (backend, ops) in SLOW.items():
        for op in ops:
            for which in range(1 if backend[0] in ("v1", "v3") else 4 if tier == "thorough" else 2):
                out += [["slow", kind, op, which, few()[i::3]] for i in range(3)]
    return sorted(out, key=lambda c: c[0] != "slow")


def run_case(case, ctx):
    return globals()["do_" + case[0]](ctx, *case[1:])
