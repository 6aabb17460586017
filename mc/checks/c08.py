"""C08: sequential reading of sector files, for every set of sectors and arrangement of the records in small recordings."""
import itertools
from mc import ops, arrangements
from mc.readers_ref import *

NEEDS_VENV = True
PROPERTY = "C08"
BOUNDS = {"quick": "8x8 detector, versions 4 and 5: every set of recorded sectors of 2 frames (256) x 4 arrangements; every order of 3 records in each of the 4 files ((3!)^4) for 3 recordings; "
                   "every split of 3 records per file over 2 files and every order of the 4 (and rotations of the 8) files; 40 file names; scans of up to 3x2 with 1 to 3 frames per position; "
                   "6 large recordings (scans up to 300 x 300, 65535 x 2 and 2 x 65535, frame numbers up to 2^32 - 1, 300 frames at a position); 3 readings through iterators, single reads and after a rewind",
          "thorough": "as quick, with every set of recorded sectors of 3 frames (4096) and all orders for versions 4 and 5"}
ASSUMPTIONS = ["a sector of a frame is recorded at most once", "detector of 8x8 pixels (hook STEMPY_VERIFY_FRAME_SIZE), real size on the samples of the conformance part"]

DIMS = (2, 2)
RECORDINGS = {
    "square": ((2, 2), [(0, 0), (1, 1), (3, 2)]),
    "repeated": ((2, 1), [(0, 7), (0, 8), (1, 7)]),          # two frames at a position, a number used twice
    "wide": ((3, 1), [(2, 5), (0, 5), (1, 5)]),              # the same number everywhere
    "tall": ((1, 3), [(0, 2), (1, 1), (2, 0)]),
    "one": ((1, 1), [(0, 0), (0, 1), (0, 0xFFFFFFFF)]),
}
NAMES = ["module{}.data", "x_module{}.data", "data_scan0000000001_module{}_ip.data", "module{}_1.data", "module0{}.data", "module3/module{}.data", "a.data.module1/module{}_x.data", "module{}.data.tmp.data"]
BAD = ["module4.data", "module17.data", "module.data", "sector1.data", "module1.dat", "data.module1", "Module1.data"]


def setup():
    ops.setup()


def cases(tier):
    out = []
    n = 3 if tier == "thorough" else 2
    for v in (5, 4):
        for rec in ("square", "repeated"):
            for mask in range(1, 1 << (4 * n)):
                out.append(["mask", v, rec, mask, n])
        for rec in ("square", "repeated", "wide") + (("tall", "one") if tier == "thorough" else ()):
            for perms in itertools.product(range(6), repeat=4):
                if v == 5 or tier == "thorough" or len(set(perms)) == 4 or len(set(perms)) == 1:
                    out.append(["order", v, rec, perms])
        for rec in RECORDINGS:
            for split in itertools.product(range(4), repeat=4):
                out.append(["split", v, rec, split, 0])
            for fo in itertools.permutations(range(4)):
                out.append(["files", v, rec, fo])
        for name in arrangements.BIG:
            out.append(["big", v, name])
        for i in range(len(NAMES)):
            out.append(["names", v, i])
        for i in range(len(BAD)):
            out.append(["bad", v, i])
    return out


PERMS = list(itertools.permutations(range(3)))


def run_case(case, ctx):
    kind, v = case[0], case[1]
    split, order, file_order, name = None, None, None, None
    dims, fr = RECORDINGS[case[2]] if kind in ("mask", "order", "split", "files") else RECORDINGS["square"]
    sectors = [ALL] * 3
    if kind == "mask":
        fr = fr[:case[4]]
        sectors = [frozenset(s for s in range(4) if case[3] >> (4 * i + s) & 1) for i in range(case[4])]
        order = {s: [0, 1] if (case[3] + s) % 3 else [1, 0] for s in range(4)} if case[4] == 2 else {}
    elif kind == "order":
        order = {s: PERMS[case[3][s]] for s in range(4)}
        sectors = [ALL, ALL - {1}, ALL] if sum(case[3]) % 2 else sectors
    elif kind == "split":
        split = {s: k for s, k in enumerate(case[3])}
        order = {s: PERMS[(k + s) % 6] for s, k in enumerate(case[3])}
    elif kind == "bad":
        sectors = [ALL]
        fr = fr[:1]
    frames = [(p, f, unique_frame(p, i), sec) for i, ((p, f), sec) in enumerate(zip(fr, sectors))]
    data = sector_files(v, frames, dims, split=split, order=order)
    if kind == "big":
        rec, data = arrangements.make_big(v, case[2])
        frames = rec.frames
    if kind == "files":
        names = list(data)
        data = {names[i]: data[names[i]] for i in case[3]}
    elif kind == "split" and sum(case[3]) % 4:
        names = list(data)
        k = (sum(case[3]) * 3) % len(names)
        data = {n: data[n] for n in names[k:] + names[:k]}
    elif kind == "names":
        data = {NAMES[case[2]].format(s): b for s, b in enumerate(data.values())}
    elif kind == "bad":
        data = {BAD[case[2]]: next(iter(data.values()))}
    files = ops.write_files(data)
    if kind == "bad":
        for reader in ("seq", "thr"):
            got = ops.run(ops.scenario(reader, v, 1, files, []))
            if not got[0].startswith("error invalid_argument"):
                return f"{BAD[case[2]]} (version {v}, {reader}) was accepted: {got}"
            ctx.step(got[0])
        return None
    if kind != "big":
        rec = Recording(v, frames, dims)
    n = len(frames)
    todo = ["captured", "drain", "captured", "reset", f"readn {n + 1}", "reset", "readn 1", "iterate", "reset", "readn 1", "reset", "drain"]
    try:
        got = ops.run(ops.scenario("seq", v, 1, files, todo))
    except ops.Failure as e:
        return str(e)
    if got[0] != "ok":
        return f"{case}: {got[0]}"
    model = SectorModel("seq", rec)
    for i, (op, g) in enumerate(zip(todo, got[1:])):
        m = model.check(op, g)
        ctx.step((model.state(), op))
        if m:
            return f"version {v}, files {list(data)}, frames {[(p, f, sorted(s)) for p, f, _, s in frames]}, order {order}: after {todo[:i]}: {m}"
    return None
