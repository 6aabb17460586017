"""C01: the two-pass reader, for every arrangement of small recordings and under every schedule within a bound."""
import itertools, os
from mc import ops, arrangements, sched_cases as S
from mc.readers_ref import *

NEEDS_VENV = True
PROPERTY = "C01"
BOUNDS = {"quick": "schedules: 11 recordings (1 to 4 frames in 1 to 4 positions, missing sectors, splits, orders) x full reads (1 to 4 workers), repeated reads and queries (2 and 3 workers) with every schedule of at most 1 deviation; 10 recordings with 2 workers and 3 with 3 workers with every schedule of at most 2; "
                   "arrangements (8x8 detector): all 255 sets of recorded sectors of 2 frames, all orders of 3 records in each of the 4 files ((3!)^4) of 3 recordings, all splits over two files of each sector, all orders of the files, with 1, 2, 3 and 7 workers, all single-frame loads; scan sizes up to 3 x 3; 6 large recordings (scans up to 300 x 300, 65535 x 2 and 2 x 65535, frame numbers up to 2^32 - 1, 300 frames at a position), a file of more than 4 GB; 8 arrangements of the real detector size",
          "thorough": "as quick, with every schedule of at most 3 deviations for 4 recordings with 2 workers, 2 for all recordings with 2 and 3 workers; all 4095 sets of sectors of 3 frames"}
ASSUMPTIONS = ["a deviation is a switch of threads (or a choice of the thread that is woken up) that the default schedule would not make; switches at blocking operations are free",
               "a sector of a frame is recorded at most once", "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE) except in the real-size part",
               "sequential consistency (races are reported as such)"]
CASE_TIMEOUT = 700
TIME_LIMIT = {"quick": 450, "thorough": 3 * 3600}
TODO = [["readall"], ["readall", "readall"], ["load 0 0", "numframes"], ["numframes", "scandims", "readall"], ["readall", "load 0 0", "readall"], ["readall", "reset", "readall"]]
CHECKERS = {"mp": S.check_model("mp")}


def setup():
    ops.setup(sched=True, real=True)


def split(case, parts):
    return [case + [p, parts] for p in range(parts)]


def cases(tier):
    out = []
    names = [n for n in S.RECORDINGS]
    two = [n for n in names if n != "four"]
    for n in ("two", "same-position", "missing"):
        out += split(["sched", n, 3, ["readall"], 2], 6)
    for n in two:
        out += split(["sched", n, 2, ["readall"], 2], 2)
    out += split(["sched", "missing", 2, ["load 0 0", "numframes"], 2], 2)
    out += split(["sched", "one", 2, ["readall", "readall"], 2], 2)
    for n in names:
        for t in (1, 2, 3, 4):
            for todo in TODO if t in (2, 3) and n != "four" or tier == "thorough" else TODO[:1]:
                out += split(["sched", n, t, todo, 1], 1)
    if tier == "thorough":
        for n in ("one", "two", "same-position", "missing"):
            out += split(["sched", n, 2, ["readall"], 3], 64)
        for n in names:
            for t in (2, 3):
                out += split(["sched", n, t, ["readall"], 2], 8)
            out += split(["sched", n, 2, ["readall", "load 0 0", "readall"], 2], 8)
    for c in arrangements.cases(5, tier):
        for t in (1, 2, 3, 7) if c[0] != "order" else (2, 3):
            out.append(["run", t, c])
    for n in arrangements.BIG:
        out += [["big", n, t] for t in (1, 2, 4)]
    out.insert(0, ["offsets"])
    for d in itertools.product((1, 2, 3), repeat=2):
        for t in (1, 2, 8):
            out.append(["scan", list(d), t])
    for i in range(8):
        out.append(["real", i])
    return out


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def do_sched(ctx, name, threads, todo, bound, part, parts):
    return S.explore(ctx, "", "mp", 5, name, threads, todo, bound, part, parts, CHECKERS["mp"], CASE_TIMEOUT - 20)


def verify(ctx, what, rec, todo, got):
    model = SectorModel("mp", rec)
    if got[0] != "ok" or len(got) != len(todo) + 1:
        return f"{what}: {got[0]}"
    for i, (op, g) in enumerate(zip(todo, got[1:])):
        m = model.check(op, g)
        ctx.step((what, op))
        if m:
            return f"{what}: after {todo[:i]}, {op}: {m}"
    return None


def queries(rec):
    """Everything that can be asked"""
    n = rec.dims[0] * rec.dims[1]
    todo = ["numframes", "scandims"]
    at = sorted({f[0] for f in rec.frames})
    for p in range(n) if n < 20 else sorted({q for p in at for q in (p - 1, p, p + 1) if 0 <= q < n}):
        k = len(rec.at(p))
        todo += [f"load {p} {i}" for i in range(k + 1)]
        if k > 1:
            todo += [f"load {p} " + " ".join(map(str, x)) for x in itertools.islice(itertools.permutations(range(k)), 6)] + [f"load {p} 1 1 0"]
        todo += [f"load {p}"]
    return todo + [f"load {n} 0", "load 4294967295 0"]


def do_run(ctx, threads, arr):
    rec, data = arrangements.make(arr)
    files = ops.write_files(data)
    todo = ["readall"] + queries(rec) + ["readall"] if threads < 3 else queries(rec) + ["readall", "readall"]
    got = ops.run(ops.scenario("mp", 5, threads, files, todo))
    return verify(ctx, f"{threads} workers, {arr}", rec, todo, got)


def do_scan(ctx, dims, threads):
    """A frame in a single position, and in all positions, of every scan size."""
    n = dims[0] * dims[1]
    for p in list(range(n)) + [None]:
        at = range(n) if p is None else [p]
        frames = [(q, 17 + q, unique_frame(q, q), ALL) for q in at] + [(q, 3, unique_frame(q, q + 50), ALL - {q % 4}) for q in at]
        rec, data = Recording(5, frames, dims), sector_files(5, frames, dims)
        files = ops.write_files(data)
        todo = ["readall"] + queries(rec)
        m = verify(ctx, f"{threads} workers, scan {dims}, position {p}", rec, todo, ops.run(ops.scenario("mp", 5, threads, files, todo)))
        if m:
            return m
    return None


def do_big(ctx, name, threads):
    rec, data = arrangements.make_big(5, name)
    files = ops.write_files(data)
    todo = queries(rec) + ["readall", "reset", "readall"] if threads == 2 else ["readall", "numframes", "reset", "readall"]
    return verify(ctx, f"{threads} workers, {name}", rec, todo, ops.run(ops.scenario("mp", 5, threads, files, todo)))


def do_offsets(ctx):
    """A file of more than 4 GB (sparse): frames before, at and after 2 and 4 GB."""
    dims, n = (200, 150), 26500
    size = 576 * 144 * 2
    at = [0, 12943, 12944, 12945, 25887, 25888, 25889, 25890, n - 1]
    px = {p: unique_frame(p, p, 576) for p in at}
    names = [os.path.join(ops.scratch(), f"large_module{s}.data") for s in range(4)]
    try:
        with open(names[0], "wb") as f:
            for p in range(n):
                f.seek(p * (size + 16))
                f.write(header(1, p, dims, p))
                if p in px:
                    f.write(px[p][sector_slice(5, 0, 576)].astype("<u2").tobytes())
            f.truncate(n * (size + 16))
        for s in (1, 2, 3):
            with open(names[s], "wb") as f:
                for p in at:
                    f.write(record(5, 1, p, dims, p, s, px[p]))
        rec = Recording(5, [(p, p, px[p], ALL) for p in at] + [(13, 13, np.zeros((576, 576), np.uint16), frozenset({0}))], dims, size=576)
        todo = [f"load {p} 0" for p in reversed(at)] + ["load 13 0", f"load {n} 0", "numframes", "scandims"]
        return verify(ctx, "a file of more than 4 GB", rec, todo, ops.run_real(ops.scenario("mp", 5, 4, names, todo), 120))
    finally:
        for f in names:
            if os.path.exists(f):
                os.unlink(f)


REAL = [["mask", 5, "square", 0xFF, 2], ["mask", 5, "repeated", 0x5A, 2], ["order", 5, "wide", (0, 3, 2, 5)], ["split", 5, "square", (1, 2, 0, 3)], ["files", 5, "many", (2, 0, 3, 1)],
        ["split", 5, "one", (3, 1, 2, 1)], ["mask", 5, "square", 0x1F, 2], ["files", 5, "tall", (3, 2, 1, 0)]]


def do_real(ctx, i):
    rec, data = arrangements.make(REAL[i], 576)
    files = ops.write_files({f"real/{n}": b for n, b in data.items()})
    todo = ["readall"] + queries(rec) + ["readall"]
    try:
        return verify(ctx, f"real size, {REAL[i]}", rec, todo, ops.run_real(ops.scenario("mp", 5, 4, files, todo)))
    finally:
        ops.write_files({f"real/{n}": b"" for n in data})
