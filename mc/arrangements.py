"""All arrangements of small recordings: sets of recorded sectors, orders of the records, splits over files, orders of files."""
import itertools
from mc.readers_ref import *

RECORDINGS = {
    "square": ((2, 2), [(0, 0), (1, 1), (3, 2)]),
    "repeated": ((2, 1), [(0, 7), (0, 8), (1, 7)]),          # two frames at a position, a number used twice
    "wide": ((3, 1), [(2, 5), (0, 5), (1, 5)]),              # the same number everywhere
    "tall": ((1, 3), [(0, 2), (1, 1), (2, 0)]),
    "one": ((1, 1), [(0, 0), (0, 1), (0, 0xFFFFFFFF)]),
    "many": ((2, 2), [(p, f) for f in range(3) for p in (3, 0, 2)]),
}
_NUMBERS = [0, 255, 256, 65535, 65536, 65537, 1 << 24, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]
# Positions and frame numbers that need more than 8, 16 or 31 bits, and many frames at a position
BIG = {
    "square": ((300, 300), list(zip([0, 255, 256, 299, 300, 65535, 65536, 65537, 89999, 256], _NUMBERS))),
    "wide": ((65535, 2), list(zip([0, 65534, 65535, 65536, 131069], [5] * 5))),
    "tall": ((2, 65535), list(zip([131069, 1, 65535, 65536, 0, 65537], range(6)))),
    "numbers": ((2, 1), [(n % 2, f) for n, f in enumerate(_NUMBERS)] + [(1 - n % 2, f) for n, f in enumerate(_NUMBERS)]),
    "deep": ((2, 1), [(0, f) for f in range(300)] + [(1, f) for f in range(3)]),
    "full": ((20, 15), [(p, p) for p in range(300)]),
}
PERMS = list(itertools.permutations(range(3)))


def cases(version, tier, orders=("square", "repeated", "wide")):
    out = []
    n = 3 if tier == "thorough" else 2
    for rec in ("square", "repeated"):
        for mask in range(1, 1 << (4 * n)):
            out.append(["mask", version, rec, mask, n])
    for rec in orders:
        for perms in itertools.product(range(6), repeat=4):
            out.append(["order", version, rec, perms])
    for rec in RECORDINGS:
        for split in itertools.product(range(4), repeat=4):
            out.append(["split", version, rec, split])
        for fo in itertools.permutations(range(4)):
            out.append(["files", version, rec, fo])
    return out


def make_big(version, name, content=unique_frame, size=FRAME):
    """Some of the frames have missing sectors."""
    dims, fr = BIG[name]
    frames = [(p, f, content(p % 97, i), ALL if i % 4 != 3 else ALL - {i % 3}) for i, (p, f) in enumerate(fr)]
    order = {1: list(range(len(fr)))[::-1]} if len(fr) < 20 else None
    return Recording(version, frames, dims, size=size), sector_files(version, frames, dims, order=order, split={2: len(fr) // 2})


def make(case, size=FRAME):
    """-> Recording, files"""
    kind, v, name = case[:3]
    dims, fr = RECORDINGS[name]
    split, order = None, None
    sectors = [ALL] * len(fr)
    if kind == "mask":
        fr = fr[:case[4]]
        sectors = [frozenset(s for s in range(4) if case[3] >> (4 * i + s) & 1) for i in range(case[4])]
        order = {s: [0, 1] if (case[3] + s) % 3 else [1, 0] for s in range(4)} if case[4] == 2 else None
    elif kind == "order":
        order = {s: PERMS[case[3][s]] for s in range(4)}
        sectors = [ALL, ALL - {1}, ALL] if sum(case[3]) % 2 else sectors
    elif kind == "split":
        split = {s: k * len(fr) // 3 for s, k in enumerate(case[3])}
        if len(fr) == 3:
            order = {s: PERMS[(k + s) % 6] for s, k in enumerate(case[3])}
    frames = [(p, f, unique_frame(p, i, size), sec) for i, ((p, f), sec) in enumerate(zip(fr, sectors))]
    data = sector_files(v, frames, dims, split=split, order=order)
    if kind == "files":
        names = list(data)
        data = {names[i]: data[names[i]] for i in case[3]}
    elif kind == "split" and sum(case[3]) % 4:
        names = list(data)
        k = (sum(case[3]) * 3) % len(names)
        data = {n: data[n] for n in names[k:] + names[:k]}
    return Recording(v, frames, dims, size=size), data
