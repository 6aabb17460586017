"""C02: the single-pass threaded reader, for every arrangement of small recordings and under every schedule within a bound."""
import itertools
from mc import ops, arrangements, sched_cases as S
from mc.readers_ref import *

NEEDS_VENV = True
PROPERTY = "C02"
BOUNDS = {"quick": "schedules: 11 recordings (1 to 4 frames, missing sectors, splits, orders) x versions 4, 5 x 1 to 4 workers with every schedule of at most 1 deviation, repeated reads too; 9 recordings with 2 workers and 2 with 3 workers with every schedule of at most 2; "
                   "arrangements (8x8 detector): all 255 sets of recorded sectors of 2 frames, all orders of 3 records in each of the 4 files ((3!)^4) of 2 recordings, all splits over two files of each sector, all orders of the files, versions 4 and 5, with 1, 2, 3 and 7 workers; 8 arrangements of the real detector size",
          "thorough": "as quick, with every schedule of at most 3 deviations for 3 recordings with 2 workers, 2 for all recordings with 2 and 3 workers; all 4095 sets of sectors of 3 frames"}
ASSUMPTIONS = ["a deviation is a switch of threads (or a choice of the thread that is woken up) that the default schedule would not make; switches at blocking operations are free",
               "a sector of a frame is recorded at most once", "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE) except in the real-size part",
               "sequential consistency (races are reported as such)"]
CASE_TIMEOUT = 700
TIME_LIMIT = {"quick": 450, "thorough": 3 * 3600}
CHECK = S.check_model("thr")


def setup():
    ops.setup(sched=True, real=True)


def split(case, parts):
    return [case + [p, parts] for p in range(parts)]


def cases(tier):
    out = []
    names = [n for n in S.RECORDINGS]
    for n in ("one", "missing"):
        out += split(["sched", 5, n, 3, ["readall"], 2], 8)
    for n in names:
        if n not in ("four", "three"):
            out += split(["sched", 4 if n == "same-number" else 5, n, 2, ["readall"], 2], 2)
    for n in names:
        for t in (1, 2, 3, 4):
            for v in (5, 4) if t in (2, 3) else (5,):
                out += split(["sched", v, n, t, ["readall"], 1], 1)
        if n != "four":
            for t in (2, 3):
                out += split(["sched", 5, n, t, ["readall", "reset", "readall"], 1], 1)
                out += split(["sched", 5, n, t, ["drain", "reset", "readall"], 1], 1)
    if tier == "thorough":
        for n in ("one", "two", "missing"):
            out += split(["sched", 5, n, 2, ["readall"], 3], 64)
        for n in names:
            for t in (2, 3):
                out += split(["sched", 5, n, t, ["readall"], 2], 16)
            out += split(["sched", 4, n, 2, ["readall", "reset", "readall"], 2], 16)
    for v in (5, 4):
        for c in arrangements.cases(v, tier, ("square", "repeated")):
            for t in (1, 2, 3, 7) if c[0] != "order" and v == 5 else (2,):
                out.append(["run", t, c])
    for n in arrangements.BIG:
        for v in (5, 4):
            out += [["big", v, n, t] for t in (1, 2, 4)]
    for i in range(8):
        out.append(["real", i])
    return out


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def do_sched(ctx, version, name, threads, todo, bound, part, parts):
    return S.explore(ctx, "", "thr", version, name, threads, todo, bound, part, parts, CHECK, CASE_TIMEOUT - 20)


def verify(ctx, what, rec, todo, got):
    if got[0] != "ok" or len(got) != len(todo) + 1:
        return f"{what}: {got[0]}"
    m = CHECK(rec, todo, got[1:])
    ctx.step((what, tuple(got)))
    return m and f"{what}: {m}"


def do_run(ctx, threads, arr):
    rec, data = arrangements.make(arr)
    files = ops.write_files(data)
    todo = ["readall", "reset", "readall"]
    got = ops.run(ops.scenario("thr", arr[1], threads, files, todo))
    return verify(ctx, f"{threads} workers, {arr}", rec, todo, got)


def do_big(ctx, version, name, threads):
    rec, data = arrangements.make_big(version, name)
    files = ops.write_files(data)
    todo = ["readall", "reset", "readall", "reset", "drain"]
    return verify(ctx, f"{threads} workers, {name}", rec, todo, ops.run(ops.scenario("thr", version, threads, files, todo)))


REAL = [["mask", 5, "square", 0xFF, 2], ["mask", 4, "repeated", 0xFA, 2], ["order", 4, "wide", (0, 3, 2, 5)], ["split", 5, "square", (1, 2, 0, 3)], ["files", 5, "many", (2, 0, 3, 1)],
        ["split", 4, "one", (3, 1, 2, 1)], ["mask", 5, "square", 0x1F, 2], ["files", 4, "tall", (3, 2, 1, 0)]]


def do_real(ctx, i):
    rec, data = arrangements.make(REAL[i], 576)
    files = ops.write_files({f"real/{n}": b for n, b in data.items()})
    todo = ["readall", "reset", "readall"]
    try:
        return verify(ctx, f"real size, {REAL[i]}", rec, todo, ops.run_real(ops.scenario("thr", REAL[i][1], 4, files, todo)))
    finally:
        ops.write_files({f"real/{n}": b"" for n in data})
