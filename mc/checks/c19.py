"""C19: the HDF5 layer stores what it is given and returns what is stored: every history of its operations, every type, shape and part."""
import itertools, os, pathlib, subprocess
import numpy as np
from mc import build, ops

NEEDS_VENV = True
PROPERTY = "C19"
BOUNDS = {"quick": "every history of 3 of 29 operations (groups, data sets, partial updates, attributes; many of them impossible) on a new file, judged by what every operation returned, by the file as h5py reads it and by every query of the layer; "
                   "10 types x 9 shapes x the extreme values x 3 ways of writing; every part (start, count, stride, left out or not) of arrays of up to 3 dimensions for reading and writing, also partly outside; every chunk shape of 3 arrays; "
                   "every stored type (26, from h5py) x every requested one for data and attributes; 24 kinds of strings and arrays in attributes; files that do not exist, are none, are closed or read only",
          "thorough": "as quick with every history of 4 operations and larger arrays"}
ASSUMPTIONS = ["arguments have the number of dimensions of the data set, strides are positive", "little-endian machine"]
CASE_TIMEOUT = 300
TIME_LIMIT = {"quick": 400, "thorough": 3 * 3600}
_exe = None
_batch = None


def executable():
    out = build.BUILD / "bin/h5ops"
    out.parent.mkdir(parents=True, exist_ok=True)
    src = [build.VERIF / "cpp/h5ops.cpp", build.REPO / "h5cpp/h5readwrite.cpp"]
    objs, jobs = [], []
    for s in src:
        o = f"{out}.{s.stem}.o"
        objs.append(o)
        jobs.append(subprocess.Popen(["g++", "-std=c++17", "-g1", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                                      "-I", str(build.REPO), "-I/usr/include/hdf5/serial", "-c", str(s), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for j in jobs:
        text, _ = j.communicate()
        if j.returncode:
            raise build.BuildError(text[-4000:])
    build._run(["g++", "-fsanitize=address,undefined", *objs, "-o", str(out), "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5"])
    return out


def setup():
    global _exe
    if "MC_SCRATCH" not in os.environ:
        os.environ["MC_SCRATCH"] = ops.scratch()
    _exe = executable()


def path(name="f.h5"):
    return os.path.join(ops.scratch(), name)


def call(lines, what=""):
    """-> what every line returned"""
    global _batch
    if _batch is None or _batch[1] != os.getpid():
        _batch = (ops.Batch(_exe, "stderr_h5"), os.getpid())
    return _batch[0].run("\n".join(lines) + "\nend\n")


def x(s):
    return "x" + s.encode().hex()


TYPES = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"]
TYPE_NAMES = dict(zip(TYPES, ["Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64", "Float", "Double"]))


def txt(a):
    out = []
    for v in np.asarray(a).reshape(-1):
        out.append("%.17g" % float(v) if np.asarray(a).dtype.kind == "f" else str(int(v)))
    return out


def lst(a):
    return ",".join(txt(a)) or "-"


def brackets(a):
    return "[" + ",".join(txt(a)) + "]"


def dims(d):
    return ",".join(map(str, d)) or "-"


# ---------------------------------------------------------------- the model: a tree of groups and data sets
class Node:
    def __init__(self, data=None, chunks=None):
        self.data, self.chunks, self.attrs = data, chunks, {}
        self.kids = None if data is not None else {}


class Model:
    def __init__(self):
        self.root = Node()
        self.open = True

    def find(self, p):
        n = self.root
        for part in p.split("/"):
            if not part:
                continue
            if n.kids is None or part not in n.kids:
                return None
            n = n.kids[part]
        return n

    def add(self, parent, name, node):
        g = self.find(parent)
        if not self.open or g is None or g.kids is None or name in g.kids or not name:
            return "0"
        g.kids[name] = node
        return "1"

    def do(self, op):
        k = op[0]
        if k == "group":
            head, _, name = op[1].rpartition("/")
            return self.add(head or "/", name, Node())
        if k == "write":
            return self.add(op[2], op[3], Node(np.array(op[5], op[1]).reshape(op[4])))
        if k == "create":
            if op[5] and len(op[5]) != len(op[4]):
                return "0"
            return self.add(op[2], op[3], Node(np.zeros(op[4], op[1]), tuple(op[5]) or None))
        if k == "update":
            n = self.find(op[2])
            if not self.open or n is None or n.kids is not None:
                return "0"
            start = op[4] or [0] * n.data.ndim
            counts = op[5] or [d - s for d, s in zip(op[3], start)]
            if any(s + c > d for s, c, d in zip(start, counts, n.data.shape)):
                return "0"
            n.data[tuple(slice(s, s + c) for s, c in zip(start, counts))] = np.array(op[6], op[1]).reshape(counts)
            return "1"
        if k in ("attr", "attrs", "attrstr"):
            n = self.find(op[2])
            if not self.open or n is None or op[3] in n.attrs:
                return "0"
            n.attrs[op[3]] = op[4] if k == "attrstr" else np.array(op[4], op[1])
            return "1"
        if k == "close":
            self.open = False
            return "-"
        raise ValueError(k)


def line(op):
    k = op[0]
    if k == "group":
        return f"group {x(op[1])}"
    if k == "write":
        return f"write {op[1]} {x(op[2])} {x(op[3])} {dims(op[4])} {lst(np.array(op[5], op[1]))} {op[6]}"
    if k == "create":
        return f"create {op[1]} {x(op[2])} {x(op[3])} {dims(op[4])} {dims(op[5])}"
    if k == "update":
        return f"update {op[1]} {x(op[2])} {dims(op[3])} {dims(op[4] or [])} {dims(op[5] or [])} {lst(np.array(op[6], op[1]))}"
    if k in ("attr", "attrs"):
        return f"{k} {op[1]} {x(op[2])} {x(op[3])} {lst(np.array(op[4], op[1]))}"
    if k == "attrstr":
        return f"attrstr {x(op[2])} {x(op[3])} {x(op[4])}"
    return k


def judge_file(p, model):
    """The file as h5py reads it"""
    import h5py

    def compare(o, n, at):
        if set(o.attrs) != set(n.attrs):
            return f"{at}: attributes {sorted(o.attrs)}, expected {sorted(n.attrs)}"
        for a, v in n.attrs.items():
            got = o.attrs[a]
            if isinstance(v, str):
                g = np.asarray(got).reshape(-1)
                if len(g) != 1 or (g[0].decode() if isinstance(g[0], bytes) else g[0]) != v:
                    return f"{at}: attribute {a} is {got!r}, expected {v!r}"
            elif got.dtype != v.dtype or got.shape != v.shape or not np.array_equal(got, v):
                return f"{at}: attribute {a} is {got!r}, expected {v!r}"
        if n.kids is None:
            if not isinstance(o, h5py.Dataset):
                return f"{at} is no data set"
            if o.dtype != n.data.dtype or o.shape != n.data.shape or o.chunks != n.chunks or not np.array_equal(o[...], n.data):
                return f"{at} is {o.dtype} {o.shape} chunks {o.chunks} {o[...].tolist()}, expected {n.data.dtype} {n.data.shape} chunks {n.chunks} {n.data.tolist()}"
            return None
        if not isinstance(o, h5py.Group) or set(o) != set(n.kids):
            return f"{at} has {sorted(o)}, expected {sorted(n.kids)}"
        for k in n.kids:
            m = compare(o[k], n.kids[k], f"{at}{k}/")
            if m:
                return m
        return None

    with h5py.File(p, "r") as f:
        return compare(f, model.root, "/")


def queries(model):
    """What the layer has to answer for all objects"""
    q = []

    def visit(p, n):
        a = int(bool(n.attrs))
        if n.kids is None:
            t = n.data.dtype.str[1:]
            q.append((f"info {x(p)}", f"01 {TYPE_NAMES[t]} {n.data.ndim}{brackets(n.data.shape)} {a}"))
            q.append((f"readn {t} {x(p)}", brackets(n.data) + brackets(n.data.shape)))
            q.append((f"read1 {t} {x(p)}", brackets(n.data) if n.data.ndim == 1 else "[]"))
            q.append((f"readp {t} {x(p)} {n.data.size}", "1" + brackets(n.data)))
            q.append((f"children {x(p)}", "0[]"))
        else:
            q.append((f"info {x(p)}", f"10 None -1[] {a}"))
            q.append((f"children {x(p)}", "1[" + ",".join(x(k) for k in sorted(n.kids)) + "]"))
            below = []

            def walk(prefix, m):
                for k in sorted(m.kids):
                    if m.kids[k].kids is None:
                        below.append(prefix + k)
                    else:
                        walk(f"{prefix}{k}/", m.kids[k])
            walk("", n)
            q.append((f"datasets {x(p)}", below))
            q.append((f"readn i4 {x(p)}", "[][]"))
        for name, v in n.attrs.items():
            if isinstance(v, str):
                q.append((f"attrinfo {x(p)} {x(name)}", "1 String"))
                q.append((f"getstr {x(p)} {x(name)}", "1" + x(v)))
                q.append((f"getattr i4 {x(p)} {x(name)}", "0"))
            else:
                t = v.dtype.str[1:]
                q.append((f"attrinfo {x(p)} {x(name)}", f"1 {TYPE_NAMES[t]}"))
                q.append((f"getattr {t} {x(p)} {x(name)}", "1" + txt(v)[0] if v.size == 1 else "0"))
                q.append((f"getstr {x(p)} {x(name)}", "0"))
        q.append((f"attrinfo {x(p)} {x('none')}", "0 None"))
        for k, c in (n.kids or {}).items():
            visit(f"{p.rstrip('/')}/{k}", c)
    visit("/", model.root)
    q.append((f"info {x('/none')}", "00 None -1[] 0"))
    q.append((f"children {x('/none')}", "0[]"))
    return q


def judge_queries(q, got):
    for (l, want), g in zip(q, got):
        if isinstance(want, list):          # the order of the groups is not specified
            g = sorted(bytes.fromhex(e[1:]).decode() for e in g.strip("[]").split(",") if e)
            want = sorted(want)
        if g != want:
            return f"{show(l)} returned {g}, expected {want}"
    return None


def show(l):
    return " ".join((bytes.fromhex(w[1:]).decode(errors="replace") or "''") if w[:1] == "x" and len(w) % 2 and all(c in "0123456789abcdef" for c in w[1:]) else w for w in l.split())


def play(ctx, history, p=None, reads=True):
    p = p or path()
    model = Model()
    lines = [f"open {p} w"] + [line(o) for o in history] + ["destroy"]
    want = [model.do(o) for o in history]
    after = []
    if reads:
        after = queries(model)
        lines += [f"open {p} r"] + [l for l, _ in after]
    got = call(lines)
    ctx.step(tuple(got))
    for o, w, g in zip(history, want, got[1:]):
        if g != w:
            return f"{o} returned {g}, expected {w}"
    m = judge_file(p, model)
    if m is None and reads:
        m = judge_queries(after, got[len(history) + 3:])
    return m and f"{history}: {m}"


R = list(range(1, 7))
ALPHABET = [
    ("group", "/g"), ("group", "/g/h"), ("group", "/d"), ("group", "/g"),
    ("write", "i4", "/", "d", [2, 3], [1, -2, 3, -4, 5, -6], "v"), ("write", "u2", "/", "d", [6], [1, 2, 3, 4, 5, 65535], "p"),
    ("write", "f8", "/g", "e", [3, 2], [.5, 1.5, -2, 3, 4, 1e300], "n"), ("write", "i1", "/g", "d", [1], [-7], "v"), ("write", "u8", "/g/h", "d", [2], [1, 2 ** 64 - 1], "n"),
    ("write", "f4", "/d", "e", [1], [1], "p"),
    ("create", "u2", "/", "d", [2, 3], []), ("create", "u2", "/g", "e", [2, 3], [1, 3]), ("create", "u2", "/g", "d", [3], [2]), ("create", "u4", "/g/h", "d", [2, 1, 2], [1, 1, 1]),
    ("update", "u2", "/d", [2, 3], [1, 0], [1, 3], [7, 8, 9]), ("update", "u2", "/g/e", [2, 3], [0, 1], [2, 2], [1, 2, 3, 4]), ("update", "u2", "/g/d", [3], None, None, [4, 5, 6]),
    ("update", "u2", "/d", [2, 3], [1, 1], [1, 3], [7, 8, 9]), ("update", "u2", "/g", [1], None, None, [4]), ("update", "u2", "/d", [2, 3], [1, 2], None, [3]),
    ("attr", "i4", "/", "a", [-5]), ("attr", "f4", "/d", "a", [2.5]), ("attrs", "u8", "/g", "a", [3, 4]), ("attrs", "i2", "/d", "a", [1, -1, 2]), ("attrstr", "", "/", "a", "text"),
    ("attrstr", "", "/d", "b", "a longer text, with spaces"), ("attrstr", "", "/g/e", "a", "t"),
    ("attrs", "f8", "/g/d", "b", [1]), ("close",),
]


def shaped(history):
    """Whether the partial updates have the dimensions of their data sets"""
    m = Model()
    for o in history:
        if o[0] == "update":
            n = m.find(o[2])
            if n is not None and n.kids is None and n.data.ndim != len(o[3]):
                return False
            if n is not None and n.kids is None and (n.data.dtype.kind != "u" or tuple(n.data.shape) != tuple(o[3])) and n.data.size < 6:
                return False
        m.do(o)
    return True


SHAPES = [(1,), (5,), (300,), (1, 1), (2, 3), (3, 2), (1, 4, 2), (2, 2, 2), (3, 1, 2, 2)]
SLABS = [(5,), (3, 4), (2, 3, 2)]
STORED = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", ">i2", ">i4", ">i8", ">u2", ">u4", ">u8", ">f4", ">f8", "f2", "?", "S3", "c8", "vs", "fs", "enum", "comp"]
BAD = ["missing", "none", "directory", "empty", "closed", "readonly", "cut", "nodir"]


def cases(tier):
    out = []
    n = len(ALPHABET)
    for h in itertools.product(range(n), repeat=2 if tier == "thorough" else 1):
        out.append(["history", h, 2])
    for t in TYPES:
        out.append(["types", t])
    for i in range(len(SLABS)):
        for what in ("read", "write"):
            out.append(["slabs", i, what])
    for d in ((4,), (3, 4), (2, 3, 2)):
        out.append(["chunks", d])
    for s in STORED:
        out.append(["stored", s])
    out.append(["strings"])
    for b in BAD:
        out.append(["bad", b])
    return out


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def do_history(ctx, first, more):
    for rest in itertools.product(range(len(ALPHABET)), repeat=more):
        h = [ALPHABET[i] for i in (*first, *rest)]
        if not shaped(h):
            continue
        try:
            m = play(ctx, h)
        except ops.Failure as e:
            m = f"{h}: {e}"
        if m:
            return m
    return None


def extremes(t, n):
    if t[0] == "f":
        i = np.finfo(t)
        v = [i.min, i.max, 0, -0.0, i.tiny, 1 + i.eps, -1.5, np.inf]
    else:
        i = np.iinfo(t)
        v = [i.min, i.max, 0, 1, i.max - 1, i.max // 2 + 1, i.max // 3]
    return np.array((v * (n // len(v) + 1))[:n], t)


def do_types(ctx, t):
    for s in SHAPES:
        n = int(np.prod(s))
        for how in "vpn":
            h = [("group", "/a b"), ("write", t, "/a b", "d.1", list(s), extremes(t, n), how), ("create", t, "/", "new", list(s), []),
                 ("update", t, "/new", list(s), None, None, extremes(t, n)), ("attrs", t, "/a b/d.1", "all", extremes(t, min(n, 8)))]
            for i, v in enumerate(extremes(t, 8)):
                h.append(("attr", t, "/a b", f"v{i}", [v]))
            m = play(ctx, h)
            if m:
                return m
    return None


def parts(d, strides=True):
    """Every start and count (or none) for one dimension, also partly outside"""
    out = [(None, None, None)]
    for s in (None, *range(d + 1)):
        for c in (None, *range(1, d + 2)):
            for k in (None, 1, 2, 3) if strides else (None,):
                out.append((s, c, k))
    return sorted(set(out), key=str)


def do_slabs(ctx, i, what):
    shape = SLABS[i]
    data = np.arange(1, np.prod(shape) + 1, dtype="u2").reshape(shape) * 3
    p = path()
    if what == "read":
        call([f"open {p} w", line(("write", "u2", "/", "d", list(shape), data, "v"))])
    lines, want = [], []
    starts = [None, *itertools.product(*[range(d + 1) if len(shape) < 3 else range(d) for d in shape])]
    counts = [None, *itertools.product(*[range(1, d + 2) for d in shape])]
    strides = [None, *itertools.product(*[range(1, 4 if len(shape) < 3 else 3) for d in shape])]
    if what == "read":
        for s, c, k in itertools.product(starts, counts, strides):
            ss, kk = s or (0,) * len(shape), k or (1,) * len(shape)
            cc = c or tuple((d - a) // b for d, a, b in zip(shape, ss, kk))
            if s is None and c is None and k is None:
                cc = shape
            n = int(np.prod(cc))
            ok = all(a + (m - 1) * b < d for a, b, m, d in zip(ss, kk, cc, shape))
            if n == 0:
                continue            # nothing to read: whether that is an error is not specified
            lines.append(f"slab u2 {x('/d')} {dims(k or [])} {dims(s or [])} {dims(c or [])} {max(n, data.size)}")
            if ok:
                v = data[tuple(slice(a, a + (m - 1) * b + 1, b) for a, b, m in zip(ss, kk, cc))].reshape(-1)
                v = np.concatenate([v, np.full(max(n, data.size) - n, 99, "u2")])
                want.append("1" + brackets(v))
            else:
                want.append("0")
        got = []
        for j in range(0, len(lines), 500):
            got += call([f"open {p} r"] + lines[j:j + 500])[1:]
        for l, w, g in zip(lines, want, got):
            ctx.step((l, g))
            if g != w:
                return f"data set of shape {shape}, {show(l)}: {g}, expected {w}"
        return None
    for chunk in ([], [max(1, d - 1) for d in shape]):
        for t, mem in (("u2", "u2"), ("u4", "u2"), ("f8", "i2")):
            for s, c in itertools.product(starts, counts):
                ss = s or (0,) * len(shape)
                cc = c or tuple(d - a for d, a in zip(shape, ss))
                n = int(np.prod(cc))
                if n == 0 or (t != "u2" and (s is None or c is None)):
                    continue
                h = [("create", t, "/", "d", list(shape), chunk), ("update", t, "/d", list(shape), [0] * len(shape), list(shape), data.astype(t)),
                     ("update", mem, "/d", list(shape), s and list(s), c and list(c), np.arange(n) + 100)]
                m = play(ctx, h, reads=False)
                if m:
                    return m
    return None


def do_chunks(ctx, shape):
    data = np.arange(np.prod(shape), dtype="u2").reshape(shape) + 1
    for chunk in itertools.product(*[range(1, d + 1) for d in shape]):
        h = [("create", "u2", "/", "d", list(shape), list(chunk)), ("create", "u2", "/", "e", list(shape), list(chunk)[:-1])]
        for i in reversed(range(shape[0])):
            h.append(("update", "u2", "/d", list(shape), [i] + [0] * (len(shape) - 1), [1, *shape[1:]], data[i]))
        if len(shape) == 1:
            h.pop(1)
        m = play(ctx, h)
        if m:
            return m
    return None


def do_stored(ctx, s):
    import h5py
    p = path()
    with h5py.File(p, "w") as f:
        if s == "vs":
            dt, v = h5py.string_dtype(), ["one", "two"]
        elif s == "fs":
            dt, v = h5py.string_dtype("ascii", 6), [b"one", b"two"]
        elif s == "enum":
            dt, v = h5py.enum_dtype({"A": 0, "B": 1}, basetype="i4"), [0, 1]
        elif s == "comp":
            dt, v = np.dtype([("a", "i4"), ("b", "f8")]), [(1, 2), (3, 4)]
        else:
            dt, v = np.dtype(s), np.array([0, 1]).astype(s)
        f.create_dataset("d", data=np.array(v, dtype=dt), dtype=dt)
        f.create_dataset("scalar", data=np.array(v, dtype=dt)[0], dtype=dt)
        f.attrs.create("a", v[0], dtype=dt)
        f.attrs.create("b", v[:1], shape=(1,), dtype=dt)
        f.attrs.create("c", v, shape=(2,), dtype=dt)
        f.create_dataset("null", data=h5py.Empty("i4"))
        f.attrs["null"] = h5py.Empty("i4")
    lines, want = [], []
    for t in TYPES:
        same = t == s
        lines += [f"readn {t} {x('d')}", f"readp {t} {x('d')} 64", f"slab {t} {x('d')} - 1 1 64", f"getattr {t} {x('/')} {x('a')}", f"getattr {t} {x('/')} {x('b')}",
                  f"getattr {t} {x('/')} {x('c')}", f"readn {t} {x('scalar')}", f"readn {t} {x('null')}"]
        want += ["[0,1][2]" if same else "[][2]", None if same else "0", None if same else "0", "10" if same else "0", "10" if same else "0", "0", "[][]", "[][]"]
    name = TYPE_NAMES.get(s, "None")
    string = s in ("vs", "fs", "S3")
    lines += [f"info {x('d')}", f"attrinfo {x('/')} {x('a')}", f"attrinfo {x('/')} {x('c')}"]
    want += [f"01 {name} 1[2] 0", f"1 {'String' if string else name}", f"1 {'String' if string else name}"]
    lines += [f"getstr {x('/')} {x(a)}" for a in "abc"]
    text = {"vs": "one", "fs": "one", "S3": "0"}.get(s)
    want += ["1" + x(text) if string else "0"] * 2 + ["0"]
    got = call([f"open {p} r"] + lines)[1:]
    for l, w, g in zip(lines, want, got):
        ctx.step((s, l, g))
        if w is not None and g != w and not (w == "[][2]" and g.startswith("[]")):
            return f"{s}: {show(l)} returned {g}, expected {w}"
    return None


def do_strings(ctx):
    import h5py
    texts = ["", "a", "abc", "a b", "\u00e9\u6f22", "x" * 255, "y" * 256, "z" * 5000, "line\nline"]
    p = path()
    want = []
    with h5py.File(p, "w") as f:
        f.create_dataset("d", data=[1])
        for o, at in ((f, "/"), (f["d"], "/d")):
            for i, t in enumerate(texts):
                o.attrs[f"vlen{i}"] = t
                want.append((f"getstr {x(at)} {x(f'vlen{i}')}", "1" + x(t)))
                o.attrs.create(f"one{i}", [t], dtype=h5py.string_dtype())
                want.append((f"getstr {x(at)} {x(f'one{i}')}", "1" + x(t)))
                if t:
                    n = len(t.encode())
                    for pad in (0, 3):
                        o.attrs.create(f"fixed{i}_{pad}", t.encode(), dtype=h5py.string_dtype("utf-8", n + pad))
                        want.append((f"getstr {x(at)} {x(f'fixed{i}_{pad}')}", "1" + x(t)))
            o.attrs.create("two", ["p", "q"], dtype=h5py.string_dtype())
            o.attrs.create("twofixed", [b"p", b"q"], dtype=h5py.string_dtype("ascii", 2))
            o.attrs.create("four", [["p", "q"], ["r", "s"]], dtype=h5py.string_dtype())
            aid = h5py.h5a.create(o.id, b"unset", h5py.h5t.py_create(h5py.string_dtype(), logical=True), h5py.h5s.create(h5py.h5s.SCALAR))
            del aid
            o.attrs["number"] = 4
            o.attrs["nothing"] = h5py.Empty("S4")
            want += [(f"getstr {x(at)} {x(k)}", w) for k, w in (("two", "0"), ("twofixed", "0"), ("four", "0"), ("unset", None), ("number", "0"), ("none", "0"), ("nothing", None))]
            want += [(f"attrinfo {x(at)} {x(k)}", w) for k, w in (("two", "1 String"), ("vlen0", "1 String"), ("number", "1 Int64"), ("none", "0 None"))]
    got = call([f"open {p} r"] + [l for l, _ in want])[1:]
    for (l, w), g in zip(want, got):
        ctx.step((l, g))
        if w is not None and g != w:
            return f"{show(l)} returned {g}, expected {w}"
    # and the same written by the layer
    for t in texts:
        m = play(ctx, [("attrstr", "", "/", "a", t), ("write", "i4", "/", "d", [1], [1], "v"), ("attrstr", "", "/d", t[:20].replace("/", "_") or "e", t)])
        if m:
            return m
    return None


def do_bad(ctx, what):
    import h5py, shutil
    p = path("bad.h5")
    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        os.unlink(p)
    before, mode = [], "r"
    with h5py.File(path("good.h5"), "w") as f:
        f["d"] = np.arange(4, dtype="i4")
        f.attrs["a"] = np.int32(5)
        f.create_group("g")
    good = pathlib.Path(path("good.h5")).read_bytes()
    if what == "none":
        pathlib.Path(p).write_bytes(b"not one" * 100)
    elif what == "directory":
        os.mkdir(p)
    elif what == "empty":
        pathlib.Path(p).write_bytes(b"")
    elif what == "cut":
        pathlib.Path(p).write_bytes(good[:len(good) // 2])
    elif what in ("closed", "readonly"):
        pathlib.Path(p).write_bytes(good)
        before = ["close"] if what == "closed" else []
    elif what == "nodir":
        p, mode = path("nowhere/f.h5"), "w"
    writes = [line(o) for o in (("group", "/n"), ("write", "i4", "/", "n", [2], [1, 2], "v"), ("write", "i4", "/", "n", [2], [1, 2], "n"), ("create", "u2", "/", "m", [2], []),
                                ("update", "i4", "/d", [4], None, None, [9, 9, 9, 9]), ("attr", "i4", "/", "b", [1]), ("attrs", "i4", "/d", "b", [1, 2]), ("attrstr", "", "/", "c", "t"))]
    reads = [(f"children {x('/')}", "0[]"), (f"datasets {x('')}", "[]"), (f"datasets {x('/g')}", "[]"), (f"info {x('/d')}", "00 None -1[] 0"), (f"info {x('/g')}", "00 None -1[] 0"),
             (f"attrinfo {x('/')} {x('a')}", "0 None"), (f"getattr i4 {x('/')} {x('a')}", "0"), (f"getstr {x('/')} {x('a')}", "0"), (f"readn i4 {x('/d')}", "[][]"),
             (f"read1 i4 {x('/d')}", "[]"), (f"readp i4 {x('/d')} 4", "0"), (f"slab i4 {x('/d')} - 1 2 4", "0"), ("close", "-")]
    if what == "readonly":
        reads = [(f"children {x('/')}", f"1[{x('d')},{x('g')}]"), (f"datasets {x('')}", f"[{x('d')}]"), (f"readn i4 {x('/d')}", "[0,1,2,3][4]"), (f"getattr i4 {x('/')} {x('a')}", "15"), ("close", "-")]
    got = call([f"open {p} {mode}"] + before + writes + [l for l, _ in reads] + writes)
    got = got[1 + len(before):]
    ctx.step((what, tuple(got)))
    for l, w, g in zip(writes + [l for l, _ in reads] + writes, ["0"] * len(writes) + [w for _, w in reads] + ["0"] * len(writes), got):
        if g != w:
            return f"{what}: {show(l)} returned {g}, expected {w}"
    if what in ("closed", "readonly") and pathlib.Path(p).read_bytes() != good:
        return f"{what}: the file was changed"
    return None
