"""C04: threaded electron counting returns or raises: failing histories, under every schedule within a bound."""
import itertools
from mc import ops
from mc.readers_ref import *
from mc.checks.c03 import judge

NEEDS_VENV = True
PROPERTY = "C04"
BOUNDS = {"quick": "schedules: 24 failing histories (too few complete frames, sample sizes and block numbers below one, samples that do not vary, samples out of range, scan sizes that are too small, positions outside of the scan, truncated files, failing consumers), each followed by a rewind and a count that has to succeed, or by the destruction of the reader, x both readers x 1 to 3 workers with every schedule of at most 1 deviation; 6 histories with 2 workers with every schedule of at most 2; "
                   "with real threads: all 24 histories x 1, 2, 4 and 8 workers x versions 4 and 5; every number of sample frames from -2 to 6 x every number of samples from -2 to 3 for 0 to 4 complete frames; 12 contents of the frames; all pairs of histories on the same reader",
          "thorough": "as quick, with every schedule of at most 2 deviations for all histories with 2 workers"}
ASSUMPTIONS = ["memory is not exhausted", "a deviation is a switch of threads (or a choice of the thread that is woken up) that the default schedule would not make; switches at blocking operations are free",
               "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE)", "sequential consistency (races are reported as such)"]
CASE_TIMEOUT = 700
TIME_LIMIT = {"quick": 450, "thorough": 3 * 3600}


def setup():
    ops.setup(sched=True)


def constant(p, f):
    return np.full((FRAME, FRAME), 100, np.uint16)


def zeros(p, f):
    return np.zeros((FRAME, FRAME), np.uint16)


def huge(p, f):
    return np.where(np.arange(FRAME * FRAME) % 2, 65535, 0).astype(np.uint16).reshape(FRAME, FRAME)


def large(p, f):
    return np.where(np.arange(FRAME * FRAME) % 2, 4095, 0).astype(np.uint16).reshape(FRAME, FRAME)


def single(p, f):
    a = np.full((FRAME, FRAME), 100, np.uint16)
    a[3, 3] = 101
    return a


def ramp(p, f):
    return (np.arange(FRAME * FRAME, dtype=np.uint16) * 50).reshape(FRAME, FRAME)


def outlier(p, f):
    a = count_frame(p, f)
    a[0, 0] = 3000
    return a


def one(p, f):
    return np.ones((FRAME, FRAME), np.uint16)


def first_constant(p, f):
    return constant(p, f) if f == 0 else count_frame(p, f)


CONTENTS = [count_frame, constant, zeros, large, single, ramp, outlier, one, first_constant, unique_frame,
            lambda p, f: (count_frame(p, f) % 2), lambda p, f: np.full((FRAME, FRAME), 65535, np.uint16)]

P0, P1 = (0, 0, ALL), (1, 1, ALL)
# name: (frames, content, truncated {sector: bytes kept}, operations: (operation, E(rror), R(esult) or A(nything))
H = {
    "too-many": ([P0, P1], count_frame, {}, [("count blocks=3", "E")]),
    "far-too-many": ([P0], count_frame, {}, [("count blocks=1000", "E")]),
    "incomplete": ([(0, 0, ALL - {1}), P1], count_frame, {}, [("count blocks=2", "E")]),
    "none-complete": ([(0, 0, ALL - {1}), (1, 1, ALL - {2})], count_frame, {}, [("count blocks=1", "E")]),
    "incomplete-last": ([P0, (1, 1, frozenset({0, 3}))], count_frame, {}, [("count blocks=2", "E")]),
    "zero-blocks": ([P0, P1], count_frame, {}, [("count blocks=0", "E")]),
    "negative-blocks": ([P0], count_frame, {}, [("count blocks=-1", "E")]),
    "zero-samples": ([P0, P1], count_frame, {}, [("count blocks=1 samples=0", "E")]),
    "negative-samples": ([P0, P1], count_frame, {}, [("count blocks=2 samples=-1", "E")]),
    "constant": ([P0, P1], constant, {}, [("count blocks=1", "E")]),
    "constant-all": ([P0, P1], constant, {}, [("count blocks=2", "E")]),
    "zeros": ([P0, P1], zeros, {}, [("count blocks=1", "E")]),
    "huge": ([P0, P1], huge, {}, [("count blocks=1", "A")]),
    "out-of-range": ([P0, P1], count_frame, {}, [("count blocks=1 gain=1e30", "A")]),
    "sometimes": ([P0, P1], first_constant, {}, [("count blocks=1", "A")]),
    "small-scan": ([P0, P1], count_frame, {}, [("count blocks=1 scanw=1 scanh=1", "E")]),
    "small-scan-sample": ([(1, 0, ALL), (1, 1, ALL)], count_frame, {}, [("count blocks=2 scanw=1 scanh=1", "E")]),
    "truncated": ([P0, P1], count_frame, {1: 48 + 20}, [("count blocks=2", "E")]),
    "truncated-header": ([P0, P1], count_frame, {2: 7}, [("count blocks=1", "E")]),
    "empty-file": ([P0, P1], count_frame, {0: 0}, [("count blocks=1", "E")]),
    "consumer": ([P0, P1], count_frame, {}, [("readall-throw 0", "E")]),
    "consumer-last": ([P0, P1], count_frame, {}, [("readall-throw 1", "E")]),
    "twice": ([P0, P1], count_frame, {}, [("count blocks=3", "E"), ("reset", "A"), ("count blocks=1 samples=0", "E")]),
    "no-rewind": ([P0, P1], count_frame, {}, [("count blocks=2", "R"), ("count blocks=1", "A")]),
}
SUCCEEDS = {n for n, (fr, content, cut, _) in H.items() if content is count_frame and not cut and any(len(s) == 4 for *_, s in fr)}
SLOW = {"huge"}     # a fit to 65536 bins
OUTSIDE = ["outside", "outside-last"]        # positions outside of the scan given in the file


def history(name, version):
    """-> recording, files, operations with what is expected"""
    if name in OUTSIDE:
        fr, dims = [P0, (2, 1, ALL)] if name == "outside" else [P0, P1, (5, 2, ALL - {2})], (2, 1)
        frames = [(p, f, count_frame(p, f), s) for p, f, s in fr]
        todo = [("count blocks=1", "E" if name == "outside" else "A"), ("count blocks=3", "E")]
        return Recording(version, frames, (2, 1)), sector_files(version, frames, dims), todo
    fr, content, cut, todo = H[name]
    frames = [(p, f, content(p, f), s) for p, f, s in fr]
    data = sector_files(version, frames, (2, 1))
    data = {n: b[:cut.get(i, len(b))] for i, (n, b) in enumerate(data.items())}
    todo = list(todo)
    if name in SUCCEEDS:
        todo += [("reset", "A"), ("count blocks=1", "R")]
    return Recording(version, frames, (2, 1)), data, todo


def verify(rec, kind, todo, got):
    for (op, expected), g in zip(todo, got):
        if "unexpected" in g:
            return f"{op}: {g}"
        if g.startswith("error"):
            if expected == "R":
                return f"{op}: {g}"
        elif expected == "E":
            return f"{op} returned {g[:400]}, expected an error"
        elif op.startswith("count") and expected == "R":
            m = judge(rec, kind, op, g)
            if m:
                return m
    return None


def cases(tier):
    out = []
    deep = [("thr", "too-many"), ("mp", "too-many"), ("thr", "constant"), ("mp", "constant"), ("mp", "small-scan"), ("mp", "incomplete-last")]
    if tier == "thorough":
        deep = [(k, n) for n in H if n not in SLOW for k in ("thr", "mp")]
    for k, n in deep:
        for p in range(6):
            out.append(["sched", 5, k, n, 2, 2, p, 6, True])
    for n in list(H) + OUTSIDE:
        if n in SLOW:
            continue
        for k in ("thr", "mp"):
            for t in (1, 2, 3):
                out.append(["sched", 4 if k == "thr" and len(n) % 2 else 5, k, n, t, 1, 0, 1, False])
    for n in list(H) + OUTSIDE:
        for k, v in (("thr", 5), ("thr", 4), ("mp", 5)):
            for t in (1, 2, 4, 8):
                if n in SLOW and (k, v, t) not in (("thr", 5, 1), ("mp", 5, 1)):
                    continue
                out.append(["run", v, k, n, t])
    for k in ("thr", "mp"):
        for n in range(5):
            for t in (1, 3):
                out.append(["numbers", k, n, t])
        for i in range(len(CONTENTS)):
            for t in (1, 2):
                out.append(["contents", k, i, t])
        good = [n for n in H if n in SUCCEEDS]
        for a, b in itertools.product(good, repeat=2):
            out.append(["pair", k, a, b])
    return out


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def do_sched(ctx, version, kind, name, threads, bound, part, parts, short):
    rec, data, todo = history(name, version)
    if short:
        todo = todo[:1]
    files = ops.write_files(data)
    what = f"{kind} reader (version {version}) with {threads} workers, history '{name}': "
    try:
        stats, outcomes = ops.explore(ops.scenario(kind, version, threads, files, [op for op, _ in todo], bound=bound, part=part, parts=parts), CASE_TIMEOUT - 20)
    except ops.Failure as e:
        return what + str(e)
    ops.note(ctx, stats)
    for schedule, got in outcomes:
        ctx.step((what, tuple(got)))
        m = verify(rec, kind, todo, got[1:])
        if m:
            return f"{what}{m}\nschedule {schedule}"
    return None


def do_run(ctx, version, kind, name, threads):
    rec, data, todo = history(name, version)
    files = ops.write_files(data)
    got = ops.run(ops.scenario(kind, version, threads, files, [op for op, _ in todo]))
    ctx.step((name, tuple(got)))
    m = verify(rec, kind, todo, got[1:])
    return m and f"{kind} reader (version {version}) with {threads} workers, history '{name}': {m}"


def do_numbers(ctx, kind, n, threads):
    fr = [(i % 3, i, ALL) for i in range(n)] + [(2, 9, ALL - {0})]
    frames = [(p, f, count_frame(p, i), s) for i, (p, f, s) in enumerate(fr)]
    rec, data = Recording(5, frames, (3, 1)), sector_files(5, frames, (3, 1))
    files = ops.write_files(data)
    todo = []
    for b in range(-2, 7):
        for s in range(-2, 4):
            todo += [(f"count blocks={b} samples={s}", "R" if 1 <= b <= n and s >= 1 else "E"), ("reset", "A")]
    got = ops.run(ops.scenario(kind, 5, threads, files, [op for op, _ in todo]))
    for g in got:
        ctx.step((n, g))
    m = verify(rec, kind, todo, got[1:])
    return m and f"{kind}, {n} complete frames, {threads} workers: {m}"


def do_contents(ctx, kind, i, threads):
    frames = [(p, f, CONTENTS[i](p, f), ALL) for p, f in ((0, 0), (1, 1), (2, 2))]
    rec, data = Recording(5, frames, (3, 1)), sector_files(5, frames, (3, 1))
    files = ops.write_files(data)
    todo = []
    for b in (1, 2, 3):
        for more in ("", " dark=1", " dark=100", " dark=1e9", " gain=0", " gain=1e-30", " gain=1e30", " gain=nan", " dark=nan gain=1", " gain=inf", " gain=-1", " bgsigma=nan", " xraysigma=-1e300", " bgsigma=1e300"):
            if "dark=nan" in more and "gain" not in more:
                continue
            todo += [(f"count blocks={b}{more}", "A"), ("reset", "A")]
    got = ops.run(ops.scenario(kind, 5, threads, files, [op for op, _ in todo]), 60)
    for g in got:
        ctx.step((i, g))
    m = verify(rec, kind, todo, got[1:])
    return m and f"{kind}, content {i}, {threads} workers: {m}"


def do_pair(ctx, kind, a, b):
    """Both histories on the same reader"""
    rec, data, first = history(a, 5)
    todo = first + [("reset", "A")] + [(op, "A") for op, _ in H[b][3]] + [("reset", "A"), ("count blocks=1", "R")]
    files = ops.write_files(data)
    got = ops.run(ops.scenario(kind, 5, 3, files, [op for op, _ in todo]))
    ctx.step((a, b, tuple(got)))
    m = verify(rec, kind, todo, got[1:])
    return m and f"{kind}, history '{a}' and then '{b}': {m}"
