"""Recordings whose reading and counting is explored under all schedules (C01 to C04)."""
from mc import ops
from mc.readers_ref import *

# name: (scan (width, height), [(position, frame number, sectors)], split, order)
RECORDINGS = {
    "two": ((2, 1), [(0, 0, ALL), (1, 1, ALL)], None, None),
    "same-position": ((1, 1), [(0, 4), (0, 5)], None, {1: [1, 0], 3: [1, 0]}),
    "same-number": ((2, 1), [(0, 3), (1, 3)], None, {0: [1, 0], 2: [1, 0]}),
    "missing": ((2, 1), [(0, 0, ALL - {1}), (1, 1, ALL)], None, {2: [1, 0]}),
    "split": ((1, 2), [(0, 0), (1, 1)], {0: 1, 2: 1}, {3: [1, 0]}),
    "one": ((1, 1), [(0, 0)], None, None),
    "three": ((2, 2), [(0, 0), (3, 1), (3, 2)], None, {1: [2, 0, 1]}),
    "three-missing": ((3, 1), [(2, 7), (0, 7, frozenset({1, 2})), (2, 9)], None, {0: [1, 0]}),
    "last-missing": ((2, 1), [(0, 0), (1, 1, ALL - {3})], None, None),
    "nothing-complete": ((2, 1), [(0, 0, ALL - {3}), (1, 1, ALL - {0})], None, None),
    "four": ((2, 2), [(0, 0), (1, 1), (2, 2), (3, 3)], None, {2: [3, 2, 1, 0]}),
}


def recording(version, name, content=count_frame, size=FRAME):
    dims, fr, split, order = RECORDINGS[name]
    frames = [(f[0], f[1], content(f[0], i, size), f[2] if len(f) > 2 else ALL) for i, f in enumerate(fr)]
    return Recording(version, frames, dims, size=size), sector_files(version, frames, dims, split=split, order=order)


def explore(ctx, what, kind, version, rec_name, threads, todo, bound, part, parts, check, timeout, **settings):
    """Explores the schedules of some operations; check(op, result, model) judges each result of each distinct outcome."""
    rec, data = recording(version, rec_name)
    files = ops.write_files(data)
    what = f"{kind} reader (version {version}) with {threads} workers, recording '{rec_name}', {todo}: "
    try:
        stats, outcomes = ops.explore(ops.scenario(kind, version, threads, files, todo, bound=bound, part=part, parts=parts, **settings), timeout)
    except ops.Failure as e:
        return what + str(e)
    ops.note(ctx, stats)
    for schedule, got in outcomes:
        ctx.step((what, tuple(got)))
        if got[0] != "ok" or len(got) != len(todo) + 1:
            return f"{what}{got}\nschedule {schedule}"
        m = check(rec, todo, got[1:])
        if m:
            return f"{what}{m}\nschedule {schedule}"
    return None


def check_model(kind):
    def check(rec, todo, got):
        model = SectorModel(kind, rec)
        for op, g in zip(todo, got):
            m = model.check(op, g)
            if m:
                return f"{op}: {m}"
        return None
    return check
