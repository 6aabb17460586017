"""C18: reading and counting distributed over several MPI processes gives what one process gives."""
import itertools
from mc import ops, sched_cases as S
from mc.checks.c03 import judge
from mc.readers_ref import *

NEEDS_VENV = True
PROPERTY = "C18"
BOUNDS = {"quick": "schedules: counting and reading with 2 ranks x 1 and 2 workers and 3 ranks x 1 worker with every schedule of all of their threads of at most 1 deviation, 2 histories with 2 ranks x 1 worker of at most 2; "
                   "with real threads: 11 recordings x 1 to 5 ranks x 1 to 3 workers, every number of 0 to 2 frames at each of three positions x 2 to 4 ranks x every number of sample frames, 1 to 6 positions with the same pixels x 1 to 6 ranks (compared to what one process returns), every history of 3 operations (of 6) on 2 ranks and of 2 operations on 3 and 4",
          "thorough": "as quick, with every schedule of at most 2 deviations for all histories with 2 ranks x 1 worker, and every history of 4 operations on 2 ranks and of 3 on 3 and 4 ranks"}
ASSUMPTIONS = ["MPI, BigMPI and cereal are stand-ins (cpp/mpi), with ranks that are threads of one process, sends that complete when they have been received and collective operations that wait for all ranks",
               "every rank has enough complete frames for its share of the sample frames", "the multi-pass reader, the one that distributes its work",
               "a deviation is a switch of threads that the default schedule would not make", "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE)"]
CASE_TIMEOUT = 700
TIME_LIMIT = {"quick": 450, "thorough": 3 * 3600}


def setup():
    ops.setup(asan=True, mpi=True)


def share(n, ranks, r):
    """What rank r gets of n"""
    k = n // ranks
    return range(r * k, n if r == ranks - 1 else (r + 1) * k)


def enough(rec, ranks, blocks):
    """Whether every rank has its share of the sample frames"""
    n = rec.dims[0] * rec.dims[1]
    return all(sum(len(f[3]) == 4 and f[0] in share(n, ranks, r) for f in rec.frames) >= len(share(blocks, ranks, r)) for r in range(ranks))


def same_frame(p, i, size=FRAME):
    return count_frame(0, 0, size)


def verify(rec, ranks, todo, got, single=None):
    n = len(todo) + 1
    if len(got) != ranks * n:
        return f"{got}"
    per = [got[r * n:(r + 1) * n] for r in range(ranks)]
    for r in range(ranks):
        if per[r][0] != "ok":
            return f"rank {r}: {per[r][0]}"
    model = SectorModel("mp", rec)
    for k, op in enumerate(todo):
        each = [p[k + 1] for p in per]
        bad = [f"{op}: rank {r}: {g[:300]}" for r, g in enumerate(each) if g.startswith("error") and not op.startswith("load")]
        if bad:
            return bad[0]
        if op.startswith("count"):
            m = judge(rec, "mp", op, each[0])
            if m is None and single is not None and each[0] != single[k + 1]:
                m = f"{op}: {each[0]}\none process returns {single[k + 1]}"
            if m:
                return m
        elif op == "readall":
            blocks = [b for g in each for b in (split_list(g) or ([] if g == "[]" else [g]))]
            m = model.check(op, join(blocks))
            if m:
                return "all ranks together: " + m
        else:
            for r, g in enumerate(each):
                m = model.check(op, g)
                if m:
                    return f"rank {r}: {m}"
    return None


def join(blocks):
    return "[" + " | ".join(sorted(blocks)) + "]"


def run(ctx, what, ranks, threads, rec, data, todo, single=False):
    files = ops.write_files(data)
    got = ops.run_mpi(ops.scenario("mp", 5, threads, files, todo, ranks=ranks))
    for g in got:
        ctx.step((what, g))
    one = ops.run(ops.scenario("mp", 5, threads, files, todo)) if single else None
    m = verify(rec, ranks, todo, got, one)
    return m and f"{ranks} ranks with {threads} workers, {what}, {todo}: {m}"


def make(fr, dims, content=count_frame, order=None, split=None):
    frames = [(p, f, content(p, i), sec) for i, (p, f, sec) in enumerate(fr)]
    return Recording(5, frames, dims), sector_files(5, frames, dims, order=order, split=split)


HISTORIES = ["count blocks=B", "readall", "numframes", "scandims", "load 0 0", "reset"]


# schedules: name -> (frames, scan, operations)
SCHED = {
    "count": ([(0, 0, ALL), (1, 1, ALL)], (2, 1), ["count blocks=2"]),
    "count-default": ([(0, 0, ALL), (1, 1, ALL), (2, 2, ALL)], (3, 1), ["count blocks=1"]),
    "count-incomplete": ([(0, 0, ALL), (1, 1, ALL - {2}), (1, 2, ALL)], (2, 1), ["count blocks=2"]),
    "readall": ([(0, 0, ALL), (1, 1, ALL), (1, 2, ALL)], (2, 1), ["readall"]),
    "again": ([(0, 0, ALL), (1, 1, ALL)], (2, 1), ["readall", "reset", "count blocks=2"]),
}


def cases(tier):
    out = []
    for n in ("count", "readall") if tier == "quick" else SCHED:
        parts = 8 if tier == "quick" else 16
        for p in range(parts):
            out.append(["sched", n, 2, 1, 2, p, parts])
    for n in SCHED:
        for ranks, t in ((2, 1), (2, 2), (3, 1)) if n != "again" else ((2, 1),):
            if n in ("count", "count-incomplete") and ranks > 2:
                continue
            out.append(["sched", n, ranks, t, 1, 0, 1])
    for n in S.RECORDINGS:
        for ranks in (1, 2, 3, 4, 5):
            for t in (1, 2, 3):
                out.append(["recording", ranks, t, n])
    for spread in itertools.product(range(3), repeat=3):
        if sum(spread):
            for ranks in (2, 3, 4):
                out.append(["spread", ranks, spread])
    for ranks in (1, 2, 3, 4, 6):
        for n in range(1, 7):
            out.append(["same", ranks, n])
    n = 4 if tier == "thorough" else 3
    for h in itertools.product(range(len(HISTORIES)), repeat=n):
        out.append(["history", 2, h])
    for h in itertools.product(range(len(HISTORIES)), repeat=n - 1):
        for ranks in (3, 4):
            out.append(["history", ranks, h])
    return out


def do_sched(ctx, name, ranks, threads, bound, part, parts):
    fr, dims, todo = SCHED[name]
    rec, data = make(fr, dims)
    files = ops.write_files(data)
    what = f"{ranks} ranks with {threads} workers, {name}: "
    try:
        stats, outcomes = ops.explore(ops.scenario("mp", 5, threads, files, todo, ranks=ranks, bound=bound, part=part, parts=parts), CASE_TIMEOUT - 20, True)
    except ops.Failure as e:
        return what + str(e)
    ops.note(ctx, stats)
    for schedule, got in outcomes:
        ctx.step((what, tuple(got)))
        m = verify(rec, ranks, todo, got)
        if m:
            return f"{what}{m}\nschedule {schedule}"
    return None


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def do_recording(ctx, ranks, threads, name):
    rec, data = S.recording(5, name)
    todo = ["readall"]
    for b in range(1, 4):
        if enough(rec, ranks, b):
            todo += [f"count blocks={b}"]
    return run(ctx, f"recording '{name}'", ranks, threads, rec, data, todo)


def do_spread(ctx, ranks, spread):
    fr = [(p, 3 * k + p, ALL) for k in range(3) for p in range(3) if k < spread[p]]
    rec, data = make(fr, (3, 1), order={1: list(range(len(fr)))[::-1]}, split={2: len(fr) // 2})
    todo = [f"count blocks={b}" for b in range(1, len(fr) + 1) if enough(rec, ranks, b)] + ["readall"]
    return run(ctx, f"{spread} frames per position", ranks, 2, rec, data, todo)


def do_same(ctx, ranks, n):
    """The same pixels in every frame, so that the thresholds do not depend on which frames are sampled"""
    fr = [(p, p, ALL) for p in range(n)] + [(p, n + p, ALL - {p % 4}) for p in range(n)]
    rec, data = make(fr, (n, 1), same_frame)
    todo = []
    for b in range(1, n + 1):
        if enough(rec, ranks, b):
            todo += [f"count blocks={b}", f"count blocks={b} dark=2 gain=1.5"]
    return run(ctx, f"{n} positions with the same pixels", ranks, 2, rec, data, todo, True) if todo else None


def do_history(ctx, ranks, h):
    fr = [(0, 0, ALL), (1, 1, ALL), (2, 2, ALL), (3, 3, ALL - {1}), (0, 4, ALL), (3, 5, ALL)]
    rec, data = make(fr, (2, 2))
    b = next(b for b in (ranks, 1) if enough(rec, ranks, b))
    todo = [HISTORIES[i].replace("=B", f"={b}") for i in h] + ["readall"]
    return run(ctx, "history", ranks, 2, rec, data, todo)
