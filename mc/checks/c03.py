"""C03: threaded electron counting equals counting every frame on its own: small recordings, all schedules within a bound."""
import itertools
from mc import ops, sched_cases as S
from mc.arrangements import BIG, make_big
from mc.readers_ref import *

NEEDS_VENV = True
PROPERTY = "C03"
BOUNDS = {"quick": "schedules: 10 recordings (1 to 4 frames, missing sectors, several frames per position) x both readers x every number of sample frames up to the number of complete frames x 1 to 3 workers with every schedule of at most 1 deviation; 5 combinations with 2 workers with every schedule of at most 2; "
                   "recordings with real threads (8x8 detector): all 255 sets of recorded sectors of 2 frames, every number of frames (0 to 3) at each of 3 positions x every number of sample frames, both readers, versions 4 and 5, 1, 2, 3 and 7 workers, dark reference and gain on or off, repeated counts, the scan size given or taken from the file; 6 large recordings (scans up to 300 x 300, 65535 x 2 and 2 x 65535, frame numbers up to 2^32 - 1, 300 frames at a position); 6 recordings of the real detector size",
          "thorough": "as quick, with every schedule of at most 2 deviations for all recordings with 2 workers and 4 with 3 workers"}
ASSUMPTIONS = ["the frames have noise for which the thresholds can be determined (C04 covers the others)",
               "a deviation is a switch of threads (or a choice of the thread that is woken up) that the default schedule would not make; switches at blocking operations are free",
               "8x8 detector (hook STEMPY_VERIFY_FRAME_SIZE) except in the real-size part", "sequential consistency (races are reported as such)"]
CASE_TIMEOUT = 700
TIME_LIMIT = {"quick": 450, "thorough": 3 * 3600}


def setup():
    ops.setup(sched=True, real=True)


def complete(name):
    return sum(len(f) < 3 or len(f[2]) == 4 for f in S.RECORDINGS[name][1])


def split(case, parts):
    return [case + [p, parts] for p in range(parts)]


def cases(tier):
    out = []
    deep = [("thr", "missing", "count blocks=1"), ("mp", "same-position", "count blocks=1"), ("thr", "two", "count blocks=2"), ("mp", "last-missing", "count blocks=1"), ("mp", "two", "count blocks=1")]
    if tier == "thorough":
        deep = [(k, n, f"count blocks={b}") for k in ("thr", "mp") for n in S.RECORDINGS for b in range(1, complete(n) + 1)]
    for k, n, op in deep:
        out += split(["sched", 5, k, n, 2, op, 2], 8)
    if tier == "thorough":
        for k, n in itertools.product(("thr", "mp"), ("one", "two", "same-position", "missing")):
            out += split(["sched", 5, k, n, 3, "count blocks=1", 2], 16)
    for n in S.RECORDINGS:
        for b in range(1, complete(n) + 1):
            for t in (1, 2, 3):
                for k in ("thr", "mp"):
                    if t == 1 and b > 1:
                        continue
                    extra = ["", " dark=3.0", " gain=1.5", " dark=2.5 gain=1.5"][(b + t + (k == "mp")) % 4] if n in ("missing", "same-position") else ""
                    out += split(["sched", 4 if k == "thr" and n == "split" else 5, k, n, t, f"count blocks={b}{extra}", 1], 1)
    for mask in range(1, 256):
        for k in ("thr", "mp"):
            for t in (1, 2, 3, 7):
                out.append(["mask", k, t, mask])
    for spread in itertools.product(range(4), repeat=3):
        if sum(spread):
            for k in ("thr", "mp"):
                for t in (1, 2, 5):
                    out.append(["spread", k, t, spread])
    for k in ("thr", "mp"):
        for dark, gain in itertools.product((None, 0, 1, 2.5, 3.75), (None, 1.0, 0.5, 1.75)):
            for t in (1, 3):
                out.append(["correct", k, t, dark, gain])
    for n in BIG:
        for k in ("thr", "mp"):
            out += [["big", k, t, n] for t in (1, 3)]
    for i in range(6):
        out.append(["real", i])
    return out


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def options(op):
    d = dict(x.split("=") for x in op.split()[1:])
    return {k: float(d[k]) for k in ("dark", "gain") if k in d}


def judge(rec, kind, op, got):
    if got.startswith("error"):
        return f"{op}: {got}"
    o = options(op)
    dark = o.get("dark")
    if dark is not None and "gain" not in o:
        dark = np.floor(dark)           # without a gain, in whole detector units
    frames = [f for f in rec.frames if kind == "mp" or len(f[3]) == 4]
    m = check_events(got, rec, frames, dark, o.get("gain"))
    return m and f"{op}: {m}"


def do_sched(ctx, version, kind, name, threads, op, bound, part, parts):
    def check(rec, todo, got):
        return judge(rec, kind, op, got[0])
    return S.explore(ctx, "", kind, version, name, threads, [op], bound, part, parts, check, CASE_TIMEOUT - 20)


def run(ctx, what, kind, version, threads, rec, data, todo, runner=ops.run):
    files = ops.write_files(data)
    got = runner(ops.scenario(kind, version, threads, files, todo))
    if got[0] != "ok" or len(got) != len(todo) + 1:
        return f"{what}: {got[0]}"
    for op, g in zip(todo, got[1:]):
        ctx.step((what, op))
        if op.startswith("count"):
            r = rec
            d = dict(x.split("=") for x in op.split()[1:])
            if "scanw" in d:
                r = Recording.__new__(Recording)
                r.__dict__.update(rec.__dict__, dims=(int(d["scanw"]), int(d["scanh"])))
            m = judge(r, kind, op, g)
            if m:
                return f"{what}: {todo}: {m}"
        elif g.startswith("error"):
            return f"{what}: {op}: {g}"
    return None


def make(version, fr, dims, size=FRAME, order=None, split=None):
    frames = [(p, f, count_frame(p, i, size), sec) for i, (p, f, sec) in enumerate(fr)]
    return Recording(version, frames, dims, size=size), sector_files(version, frames, dims, order=order, split=split)


def do_mask(ctx, kind, threads, mask):
    v = 4 if kind == "thr" and mask % 3 == 0 else 5
    sec = [frozenset(s for s in range(4) if mask >> (4 * i + s) & 1) for i in range(2)]
    # a third frame that is complete, so that there is a sample
    fr = [(0, 0, sec[0]), (1, 1, sec[1]), (mask % 2, 2, ALL)]
    rec, data = make(v, fr, (2, 1), order={mask % 4: [2, 0, 1], (mask + 1) % 4: [1, 2, 0]} if mask % 5 and all(s in sec[0] & sec[1] for s in (mask % 4, (mask + 1) % 4)) else None)
    n = 1 + sum(len(s) == 4 for s in sec)
    todo = []
    for b in range(1, n + 1):
        todo += [f"count blocks={b}", "reset"] if kind == "thr" else [f"count blocks={b}", f"count blocks={b} samples=4"]
    return run(ctx, f"{kind}, {threads} workers, sectors {[sorted(s) for s in sec]}", kind, v, threads, rec, data, todo)


def do_spread(ctx, kind, threads, spread):
    fr = [(p, 3 * k + p, ALL) for k in range(3) for p in range(3) if k < spread[p]]
    v = 4 if kind == "thr" and sum(spread) % 2 else 5
    rec, data = make(v, fr, (3, 1), order={1: list(range(len(fr)))[::-1]}, split={2: len(fr) // 2})
    todo = []
    for b in range(1, len(fr) + 1):
        todo += [f"count blocks={b}", "reset"]
        if b == 1:
            todo += ["count blocks=1 scanw=3 scanh=1", "reset", "count blocks=1 scanw=2 scanh=3", "reset", "count blocks=1 scanw=0 scanh=7", "reset"]
    # an incomplete size means that of the file
    todo = [t if "scanw=0" not in t else "count blocks=1" for t in todo]
    return run(ctx, f"{kind}, {threads} workers, {spread} frames per position", kind, v, threads, rec, data, todo)


def do_correct(ctx, kind, threads, dark, gain):
    rec, data = make(5, [(0, 0, ALL), (1, 1, ALL), (1, 2, ALL - {2}), (0, 3, ALL)], (2, 1))
    op = "count blocks=2" + (f" dark={dark}" if dark is not None else "") + (f" gain={gain}" if gain is not None else "")
    return run(ctx, f"{kind}, {threads} workers, dark {dark}, gain {gain}", kind, 5, threads, rec, data, [op, "reset", op])


def do_big(ctx, kind, threads, name):
    v = 4 if kind == "thr" and threads == 3 else 5
    rec, data = make_big(v, name, lambda p, i: count_frame(i % 5, i % 3))
    return run(ctx, f"{kind}, {threads} workers, {name}", kind, v, threads, rec, data, ["count blocks=2", "reset", "count blocks=1"])


def do_real(ctx, i):
    kind = ("thr", "mp")[i % 2]
    fr = [[(0, 0, ALL), (1, 1, ALL)], [(1, 0, ALL), (1, 1, ALL), (0, 2, ALL - {3})], [(0, 5, ALL), (2, 5, ALL), (1, 5, ALL)],][i // 2]
    v = 4 if i == 0 else 5
    rec, data = make(v, fr, (3, 1), 576)
    data = {f"real/{n}": b for n, b in data.items()}
    try:
        return run(ctx, f"real size, {kind}, {fr}", kind, v, 4, rec, data, ["count blocks=1", "reset", "count blocks=2"], ops.run_real)
    finally:
        ops.write_files({n: b"" for n in data})
