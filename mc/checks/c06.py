"""C06: every history of reads, rewinds and queries on the readers, against a model of what is left to be read."""
import itertools
from mc import ops
from mc.readers_ref import *

NEEDS_VENV = True
PROPERTY = "C06"
DEPTH = {"quick": 4, "thorough": 5}
BOUNDS = {t: f"all histories of {d} operations on the sequential (alphabet of 7), threaded (7) and block (6) reader, of {d - 1} on the two-pass reader (12), each ending with a rewind and a full read, on 2 recordings per reader (incomplete frames, several frames per position, files that are split), versions 4 and 5, 1 and 2 threads"
          for t, d in DEPTH.items()}
ASSUMPTIONS = ["what is read sequentially after a threaded read or a query that moves the streams, without a rewind, is not specified",
               "detector of 8x8 pixels (hook STEMPY_VERIFY_FRAME_SIZE)"]
CASE_TIMEOUT = 60

SEQ = ["read", "readn 2", "drain", "iterate", "reset", "captured", "readn 1"]
THR = ["read", "drain", "reset", "captured", "readall", "readall-throw 0", "count blocks=1"]
MP = ["read", "drain", "reset", "readall", "load 0 0", "load 1 0", "load 0 1 0", "load 7 0", "numframes", "scandims", "readall-throw 0", "count blocks=1"]
ST = ["read", "readn 2", "drain", "iterate", "reset", "readn 1"]
TAIL = {"seq": ["reset", "drain", "read"], "thr": ["reset", "drain", "reset", "readall", "reset", "count blocks=1"],
        "mp": ["readall", "load 1 0", "count blocks=1", "numframes", "scandims", "reset", "drain", "reset", "readall"],
        "stream": ["reset", "drain", "read"]}

DIMS = (2, 1)


def recording(version, n):
    if n == 0:
        frames = [(0, 0, count_frame(0, 0), ALL), (1, 1, count_frame(1, 1), ALL - {2})]
        return Recording(version, frames, DIMS), sector_files(version, frames, DIMS)
    frames = [(0, 0, count_frame(0, 0), ALL), (0, 4, count_frame(0, 1), ALL), (1, 2, count_frame(1, 2), ALL)]
    return Recording(version, frames, DIMS), sector_files(version, frames, DIMS, split={1: 1, 3: 2}, order={0: [2, 0, 1]})


def stream_files(n):
    recs = [header(1, f, DIMS, p) + unique_frame(p, f).astype("<u2").tobytes() for f, p in [(0, 0), (1, 1), (2, 0)]]
    texts = [f"v3 scan1 frame{f} scandims2x1 framedims8x8 n1 complete {p}:{crc(unique_frame(p, f))}" for f, p in [(0, 0), (1, 1), (2, 0)]]
    return ({"a.data": recs[0] + recs[1], "b.data": recs[2]} if n else {"a.data": recs[0], "b.data": b"", "c.data": recs[1] + recs[2]}), texts


def setup():
    ops.setup()


def cases(tier):
    out = []
    for kind, alphabet, configs in (("seq", SEQ, [(5, 1, 0), (5, 1, 1), (4, 1, 1)]), ("stream", ST, [(3, 1, 0), (3, 1, 1)]),
                                    ("thr", THR, [(5, 1, 0), (5, 2, 1), (4, 1, 1)]), ("mp", MP, [(5, 1, 0), (5, 2, 1)])):
        depth = DEPTH.get(tier, 4) - (kind == "mp")
        for history in itertools.product(range(len(alphabet)), repeat=depth):
            for c in configs:
                out.append([kind, c, list(history)])
    return out


class StreamModel:
    def __init__(self, texts):
        self.texts, self.left = texts, list(texts)

    def state(self):
        return ("stream", len(self.left))

    def check(self, op, got):
        w = op.split()
        if w[0] == "reset":
            self.left = list(self.texts)
            return None if got == "ok" else got
        if w[0] == "read":
            want, self.left = (self.left[0] if self.left else "none"), self.left[1:]
            return None if got == want else f"read {got}, expected {want}"
        n = int(w[1]) if w[0] == "readn" else 99
        want, self.left = self.left[:n], self.left[n:]
        if w[0] == "readn":
            want = want + ["none"] * (n - len(want))
        return None if split_list(got) == want else f"{op}: {got}\nexpected {want}"


_files, _fresh = {}, {}


def prepared(kind, c):
    key = (kind, *c)
    if key not in _files:
        if kind == "stream":
            data, texts = stream_files(c[2])
            model = texts
        else:
            rec, data = recording(c[0], c[2])
            model = rec
        _files[key] = (ops.write_files({f"{'_'.join(map(str, key))}/{n}": b for n, b in data.items()}), model)
        if kind in ("thr", "mp"):
            got = ops.run(ops.scenario(kind, c[0], c[1], _files[key][0], ["count blocks=1"]))[1]
            _fresh[key] = None
            if c[1] == 1:
                _fresh[key] = got
    return _files[key]


def run_case(case, ctx):
    kind, c, history = case
    alphabet = {"seq": SEQ, "thr": THR, "mp": MP, "stream": ST}[kind]
    files, rec = prepared(kind, c)
    todo = [alphabet[i] for i in history] + TAIL[kind]
    try:
        got = ops.run(ops.scenario(kind, c[0], c[1], files, todo))
    except ops.Failure as e:
        return f"{kind} {c}: {todo}: {e}"
    model = StreamModel(rec) if kind == "stream" else SectorModel(kind, rec, {"count blocks=1": _fresh.get((kind, *c))})
    if got[0] != "ok" or len(got) != len(todo) + 1:
        return f"{kind} {c}: {got[0]}"
    for i, (op, g) in enumerate(zip(todo, got[1:])):
        m = model.check(op, g)
        if m is None and op.startswith("count") and kind != "stream" and (kind == "mp" or i == len(todo) - 1):
            m = check_events(g, rec, [(p, f, px, s) for p, f, px, s in rec.frames if kind == "mp" or len(s) == 4]) if not g.startswith("error") else g
        ctx.step((case[0], tuple(c), model.state(), op))
        if m:
            return f"{kind} reader {c}: after {todo[:i]}, {op}: {m}"
    return None
