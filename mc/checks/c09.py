"""C09: sector files cut at every byte, for all readers and electron counting, and under every schedule for the threaded ones."""
import itertools
from mc import ops
from mc.readers_ref import *

NEEDS_VENV = True
PROPERTY = "C09"
RECORD = 16 + FRAME * FRAME // 4 * 2
LEN = 2 * RECORD
BOUNDS = {"quick": f"8x8 detector, two frames in four files of {LEN} bytes: one file cut at every byte (x 4 files x 3 arrangements x versions 4, 5), two files cut at every pair of 11 places, three and four files cut at all combinations of 6 places, four files cut at the same place, "
                   "for the sequential, threaded and two-pass readers (all their operations, electron counting too); missing files, empty files and directories; schedules: 7 cuts x both threaded readers x reading and counting with 2 workers, all schedules with at most 1 deviation",
          "thorough": "as quick, with two files cut at every pair of bytes (step 3) and at most 2 deviations of the schedule with 2 workers, 1 with 3"}
ASSUMPTIONS = ["a frame one of whose records was cut may be delivered as incomplete or left out", "detector of 8x8 pixels (hook STEMPY_VERIFY_FRAME_SIZE)"]
CASE_TIMEOUT = 400
DIMS = (2, 1)
FRAMES = [(0, 0, count_frame(0, 0), ALL), (1, 3, count_frame(1, 1), ALL)]
PLACES = [0, 5, 8, 12, 16, 17, 30, 47, 48, 70, 95]
ARRANGE = [{}, {0: [1, 0], 2: [1, 0]}, {1: [1, 0]}]


def setup():
    ops.setup(sched=True)


def cases(tier):
    out = [["missing", v, k] for v in (5, 4) for k in range(4)]
    for v in (5, 4):
        for a in range(3):
            for m in range(4):
                for t in range(LEN):
                    out.append(["cut", v, a, {m: t}])
        places = PLACES if tier != "thorough" else list(range(0, LEN, 3))
        for m1, m2 in itertools.combinations(range(4), 2):
            for t1, t2 in itertools.product(places, places):
                out.append(["cut", v, 1, {m1: t1, m2: t2}])
        few = [0, 5, 30, 48, 52, 70] if tier != "thorough" else PLACES
        for whole in range(4):
            for ts in itertools.product(few, repeat=3):
                out.append(["cut", v, (whole + sum(ts)) % 3, dict(zip([m for m in range(4) if m != whole], ts))])
        for ts in itertools.product(few, repeat=4):
            out.append(["cut", v, sum(ts) % 3, dict(enumerate(ts))])
        for t in range(LEN):
            out.append(["cut", v, 0, {0: t, 1: t, 2: t, 3: t}])
    sched = []
    for threads, bound in ([(2, 1)] if tier != "thorough" else [(2, 2), (3, 1)]):
        for t in (0, 8, 16, 30, 48, 56, 70):
            for kind in ("thr", "mp"):
                for op in ("readall", "count blocks=1"):
                    for part in range(1 if bound == 1 else 8):
                        sched.append(["sched", 5, kind, op, {1: t}, threads, bound, part, 1 if bound == 1 else 8])
    return out[:8] + sched + out[8:]


def layout(version, arrange):
    order = ARRANGE[arrange]
    data = sector_files(version, FRAMES, DIMS, order=order)
    info = {n: (s, order.get(s, [0, 1])) for s, n in enumerate(data)}
    return data, info


def run_case(case, ctx):
    kind, v = case[0], case[1]
    if kind == "missing":
        return missing(v, case[2], ctx)
    if kind == "sched":
        return schedules(case, ctx)
    data, info = layout(v, case[2])
    names = list(data)
    cut = {names[int(m)]: t for m, t in case[3].items()}
    data = {n: b[:cut[n]] if n in cut else b for n, b in data.items()}
    files = ops.write_files(data)
    left = truncated_frames(v, FRAMES, DIMS, info, cut)
    oracle = Truncated(v, left, DIMS)
    intact = sum(len(i) for *_, i, _ in left)
    for reader, todo in (("seq", ["captured", "drain", "read", "reset", "drain", "reset", "classic 107 190"]),
                         ("thr", ["readall", "reset", "drain", "reset", "count blocks=1", "reset", "count blocks=2"]),
                         ("mp", ["readall", "readall", "count blocks=1", "load 0 0", "load 1 0", "numframes", "reset", "drain", "count blocks=2"])):
        if reader == "mp" and v == 4:
            continue
        try:
            got = ops.run(ops.scenario(reader, v, 1, files, todo))
        except ops.Failure as e:
            return f"{reader} reader, version {v}, files cut to {cut}: {e}"
        if got[0] != "ok":
            return f"{reader} reader, version {v}, files cut to {cut}: {got[0]}"
        for i, (op, g) in enumerate(zip(todo, got[1:])):
            m = None
            w = op.split()
            if w[0] == "captured":
                c = float(g) * 8
                m = None if abs(c - intact) < 1e-3 else f"{g}, expected {intact / 8}"
            elif w[0] == "drain":
                m = oracle.check_blocks(g, "seq")
            elif w[0] == "readall":
                m = oracle.check_blocks(g, reader)
            elif w[0] == "count":
                m = oracle.check_count(g, reader, samples=int(w[1].split("=")[1]))
            elif w[0] == "classic":
                if not g.startswith("error") or any(i for *_, i, t in left):
                    m = check_classic(g, oracle)
            elif w[0] == "load":
                p, f, px, i, t = left[int(w[1])]
                ok = [f"[{oracle.text(p, f, x, len(i) == 4)}]" for x in damaged_variants(v, px, i, t)] if (i or t) else []
                if not i or t:
                    ok.append(None)
                m = None if g in ok or (g.startswith("error") and None in ok) else f"got {g}, expected one of {ok}"
            elif w[0] == "numframes":
                m = None if g in ("0", "1") and (g == "1" or not any(i for *_, i, _ in left)) else f"got {g}"
            elif w[0] == "read":
                m = None if g == "none" else f"got {g}"
            ctx.step((reader, v, op, tuple((tuple(sorted(i)), tuple(sorted(t.items()))) for *_, i, t in left)))
            if m:
                return f"{reader} reader, version {v}, arrangement {case[2]}, files cut to {cut}: after {todo[:i]}, {op}: {m}"
    return None


def check_classic(got, oracle):
    if got.startswith("error"):
        return f"got {got}"
    d, pos = parse_events(got)
    for p, f, px, i, t in oracle.left:
        opts = [events_of(x, 107, 190) for x in damaged_variants(oracle.version, px, i, t)]
        if t or not i:
            opts.append([])
        if not any([o] == pos[p] for o in opts):
            return f"position {p}: events {pos[p]}, acceptable {opts}"
    return None


def missing(v, k, ctx):
    import os, shutil
    data, info = layout(v, 0)
    files = ops.write_files(data)
    try:
        for reader in ("seq", "thr") + (("mp",) if v == 5 else ()):
            os.remove(files[k])
            got = ops.run(ops.scenario(reader, v, 1, files, ["drain"]))
            ctx.step((reader, got[0]))
            if not got[0].startswith("error invalid_argument"):
                return f"{reader}: missing file accepted: {got}"
            os.mkdir(files[k])
            try:
                got = ops.run(ops.scenario(reader, v, 1, files, ["captured", "readall" if reader != "seq" else "drain"]))
            finally:
                os.rmdir(files[k])
            ctx.step((reader, got[0]))
            if not got[0].startswith("error"):
                left = truncated_frames(v, FRAMES, DIMS, info, {list(data)[k]: 0})
                m = Truncated(v, left, DIMS).check_blocks(got[2], reader)
                if m:
                    return f"{reader}: a directory instead of file {k}: {m}"
            ops.write_files(data)
    except ops.Failure as e:
        return f"{reader}: {e}"
    finally:
        if os.path.isdir(files[k]):
            shutil.rmtree(files[k], True)
    return None


def schedules(case, ctx):
    _, v, reader, op, cut, threads, bound, part, parts = case
    data, info = layout(v, 1)
    names = list(data)
    cut = {names[int(m)]: t for m, t in cut.items()}
    data = {n: b[:cut[n]] if n in cut else b for n, b in data.items()}
    files = ops.write_files(data)
    oracle = Truncated(v, truncated_frames(v, FRAMES, DIMS, info, cut), DIMS)
    what = f"{reader} reader with {threads} workers, files cut to {cut}, {op}: "
    try:
        stats, outcomes = ops.explore(ops.scenario(reader, v, threads, files, [op], bound=bound, part=part, parts=parts), CASE_TIMEOUT - 20)
    except ops.Failure as e:
        return what + str(e)
    ops.note(ctx, stats)
    for schedule, got in outcomes:
        m = oracle.check_blocks(got[1], reader) if op == "readall" else oracle.check_count(got[1], reader)
        ctx.step((what, tuple(got)))
        if m:
            return f"{what}{m}\nschedule {schedule}"
    return None
