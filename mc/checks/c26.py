"""C26: looking up a scan finds exactly that scan's file: every small directory over a pool of colliding names, every query."""
import itertools, os, shutil, tempfile
from pathlib import Path

NEEDS_PLAIN = True
PROPERTY = "C26"
BOUNDS = {"quick": "every directory of up to 3 files out of a pool of 24 version 0 names, 16 version 1 names (and of 2 files out of the union); each looked up by scan number, scan id or both, with the threshold where the version 0 name has one, in 3 file types, by version 0, 1 and automatically",
          "thorough": "as quick with up to 4 files per directory (3 of the union)"}
ASSUMPTIONS = ["file names follow one of the two documented naming schemes (plus a few unrelated files)"]

SUF = {"STANDARD": ("", "h5"), "OFFSETS": ("_offsets", "emd"), "CENTERED": ("_centered", "h5")}


def v0(num, id=None, th=None, suf="STANDARD"):
    s, ft = SUF[suf]
    return (0, num, id, th, suf, f"data_scan{num}" + (f"_id{id}" if id is not None else "") + (f"_th{th}" if th is not None else "") + f"_electrons{s}.{ft}")


def v1(num, id, suf="STANDARD", date="240131", time="1205"):
    s, ft = SUF[suf]
    return (1, num, id, None, suf, f"FOURD_{date}_{time}_{str(id).zfill(5)}_{str(num).zfill(5)}{s}.{ft}")


POOL0 = [v0(1), v0(12), v0(2), v0(1, th=4), v0(1, th=44), v0(12, th=4), v0(1, suf="CENTERED"), v0(1, suf="OFFSETS"), v0(12, suf="CENTERED"),
         v0(1, id=1), v0(1, id=12), v0(12, id=1), v0(12, id=123), v0(2, id=1), v0(2, id=12), v0(1, id=1, suf="CENTERED"), v0(1, id=1, suf="OFFSETS"),
         v0(2, id=12, suf="CENTERED"), v0(2, id=12, suf="OFFSETS"), v0(123, id=2), v0(112), v0(21, id=21), v0(1, th=4, suf="CENTERED"), v0(12, th=44)]
POOL1 = [v1(1, 1), v1(12, 1), v1(1, 12), v1(12, 12), v1(2, 1, date="240201"), v1(1, 1, "CENTERED"), v1(1, 1, "OFFSETS"), v1(12, 1, "CENTERED"),
         v1(1, 12, "OFFSETS"), v1(12, 123), v1(1205, 2), v1(2, 1205), v1(12345, 54321), v1(54321, 12345),
         v1(1, 123456), v1(1, 23456)]
OTHER = ["notes.txt", "data_scan1.txt", "FOURD_notes.h5", "scan1.h5", "electrons.h5"]

QUERIES = []
for n, i in [(1, None), (12, None), (2, None), (None, 1), (None, 12), (None, 123), (None, 2), (1, 1), (12, 1), (1, 12), (2, 12), (2, 1), (123, 2), (1205, None), (None, 1205),
             (12345, None), (None, 12345), (None, 123456), (None, 23456), (1, 23456), (21, None), (112, None), (5, None), (None, 5), (0, None), (None, 0)]:
    for suf in SUF:
        QUERIES.append((n, i, None, suf))
        if i is None and n in (1, 12, 2):
            QUERIES += [(n, i, 4, suf), (n, i, 44, suf)]


def cases(tier):
    k = 4 if tier == "thorough" else 3
    out = [["dir", []]]
    both = POOL0 + POOL1
    for r in range(1, k + 1):
        for c in itertools.combinations(range(len(POOL0)), r):
            out.append(["dir", list(c)])
        for c in itertools.combinations(range(len(POOL0), len(both)), r):
            out.append(["dir", list(c)])
    for r in range(2, k):
        for c in itertools.combinations(range(len(both)), r):
            if c[0] < len(POOL0) <= c[-1]:
                out.append(["dir", list(c)])
    return out


def matches(ver, files, q):
    n, i, th, suf = q
    return [f for f in files if f[0] == ver and f[4] == suf and (n is None or f[1] == n) and (i is None or f[2] == i)
            and (ver == 1 or th is None or f[3] == th)]


def expected(files, q, version):
    """Set of acceptable file names, or an exception class."""
    for ver in ([1, 0] if version is None else [version]):
        m = matches(ver, files, q)
        if len(m) > 1:
            return ValueError
        if m:
            return m[0]
    return FileNotFoundError


def run_case(case, ctx):
    from stempy.contrib import get_scan_path, FileSuffix
    both = POOL0 + POOL1
    files = [both[i] for i in case[1]]
    d = tempfile.mkdtemp(prefix="mc26_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        for f in [x[5] for x in files] + (OTHER if len(files) % 2 else []):
            open(os.path.join(d, f), "w").close()
        for k, q in enumerate(QUERIES):
            n, i, th, suf = q
            for version in (None, 0, 1):
                want = expected(files, q, version)
                arg = d if k % 2 else Path(d)
                kw = {"file_suffix": FileSuffix[suf], "version": version}
                if n is not None:
                    kw["scan_num"] = n
                if i is not None:
                    kw["scan_id"] = i
                if th is not None:
                    kw["th"] = th
                what = f"files {[f[5] for f in files]}, query {kw}"
                try:
                    path, num, sid = get_scan_path(arg, **kw)
                except Exception as e:
                    ctx.step((type(e).__name__, tuple(case[1]), q, version))
                    if isinstance(want, tuple):
                        return f"{what}: raised {type(e).__name__}: {e}; {want[5]} is the only match"
                    if not isinstance(e, want):
                        return f"{what}: raised {type(e).__name__} instead of {want.__name__}: {e}"
                    continue
                ctx.step((path.name, tuple(case[1]), q, version))
                if not isinstance(want, tuple):
                    return f"{what}: returned {path.name}, should have raised {want.__name__}"
                if path.name != want[5] or Path(path).parent != Path(d):
                    return f"{what}: returned {path}, the file of that scan is {want[5]}"
                if num != want[1] or (sid if want[2] is not None else None) != want[2]:
                    return f"{what}: returned {path.name} with scan number {num} and id {sid}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
