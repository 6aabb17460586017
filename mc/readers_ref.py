"""Reference models of the readers: what a history of operations has to return."""
import re
import numpy as np
from mc.sectors import *


class Recording:
    """Frames [(pos, frame number, pixels, sectors)] of a scan."""

    def __init__(self, version, frames, dims, scan=1, size=FRAME):
        self.version, self.dims, self.scan, self.size = version, dims, scan, size
        self.frames = [(p, f, visible(version, px, sec), frozenset(sec)) for p, f, px, sec in frames if sec]

    def text(self, fr, flag):
        p, f, px, sec = fr
        return block_text(self.version, self.scan, f, self.dims, p, px, (len(sec) == 4) if flag else None, self.size)

    def complete(self, flag):
        return sorted(self.text(fr, flag) for fr in self.frames if len(fr[3]) == 4)

    def partial(self, flag):
        return sorted(self.text(fr, flag) for fr in self.frames if len(fr[3]) < 4)

    def captured(self):
        return sum(len(fr[3]) for fr in self.frames) / (4 * self.dims[0] * self.dims[1])

    def at(self, pos):
        """The frames of a position, in order of their numbers"""
        return [fr for fr in sorted(self.frames, key=lambda fr: fr[1]) if fr[0] == pos]


def split_list(text):
    if not (text.startswith("[") and text.endswith("]")):
        return None
    return text[1:-1].split(" | ") if len(text) > 2 else []


class SectorModel:
    """History model of the sector readers (kind seq, thr or mp)."""

    def __init__(self, kind, rec, fresh_count=None):
        self.kind, self.rec = kind, rec
        self.fresh_count = fresh_count or {}
        self.rewind()

    def rewind(self):
        # what is left to be read sequentially; None if that is not specified
        self.left = [self.rec.complete(False), self.rec.partial(False)]
        self.fresh = True

    def state(self):
        return (self.kind, self.fresh, None if self.left is None else (tuple(self.left[0]), tuple(self.left[1])))

    def take(self, got):
        """One sequential read returned this"""
        if self.left is None:
            return None
        if got == "none":
            if self.left[0] or self.left[1]:
                return f"the end was reported with {self.left[0] + self.left[1]} still to be read"
            return None
        for part in self.left:
            if part:
                if got in part:
                    part.remove(got)
                    return None
                return f"read {got}, expected one of {part}"
        return f"read {got}, but everything had been read"

    def several(self, blocks):
        for b in blocks:
            m = self.take(b)
            if m:
                return m

    def check(self, op, got):
        w = op.split()
        kind = w[0]
        mp = self.kind == "mp"
        if kind in ("read", "readn", "drain", "iterate"):
            self.fresh = False
            if got.startswith("error"):
                return None if self.left is None else f"{op}: {got}"
            if kind == "read":
                return self.take(got)
            blocks = split_list(got)
            if blocks is None:
                return f"{op}: {got}"
            return self.several(blocks + (["none"] if kind != "readn" else []))
        if kind == "reset":
            self.rewind()
            return None if got == "ok" else f"reset: {got}"
        if kind == "captured":
            return None if abs(float(got) - self.rec.captured()) < 1e-6 else f"captured {got}, expected {self.rec.captured()}"
        if kind == "readall":
            specified = mp or self.fresh
            self.fresh, self.left = False, None
            if not specified:
                return None
            want = sorted(self.rec.complete(True) + (self.rec.partial(True) if mp else []))
            return None if split_list(got) == want else f"readall returned {got}\nexpected {want}"
        if kind == "readall-throw":
            specified = mp or self.fresh
            self.fresh, self.left = False, None
            n = len(self.rec.frames) if mp else len(self.rec.complete(True))
            want = "error runtime_error: consumer failed" if n > int(w[1]) else "ok"
            return None if not specified or got == want else f"{op}: {got}, expected {want}"
        if kind == "load":
            self.fresh, self.left = False, None
            p, idx = int(w[1]), [int(x) for x in w[2:]]
            at = self.rec.at(p)
            if p >= self.rec.dims[0] * self.rec.dims[1] or any(i >= len(at) for i in idx):
                return None if got.startswith("error invalid_argument") else f"{op}: {got}, expected an error"
            want = [self.rec.text(at[i], True) for i in idx]
            return None if split_list(got) == want else f"{op} returned {got}\nexpected {want}"
        if kind == "numframes":
            self.fresh, self.left = False, None
            want = max([len(self.rec.at(p)) for p in {f[0] for f in self.rec.frames} if p < self.rec.dims[0] * self.rec.dims[1]] + [0])
            return None if got == str(want) else f"numframes {got}, expected {want}"
        if kind == "scandims":
            self.fresh, self.left = False, None
            want = f"{self.rec.dims[0]}x{self.rec.dims[1]}"
            return None if got == want else f"scandims {got}, expected {want}"
        if kind == "count":
            specified = mp or self.fresh
            self.fresh, self.left = False, None
            want = self.fresh_count.get(op)
            if not specified or want is None:
                return None
            return None if got == want else f"{op}: {got}\na fresh reader returns {want}"
        raise KeyError(op)


# ---------------------------------------------------------------- electron counting
def corrected(px, dark, gain):
    v = px.astype(float)
    if dark is not None:
        v = np.maximum(v - dark, 0)
    if gain is not None:
        return v * gain
    return np.floor(v)


def events_of(px, bg, xray, dark=None, gain=None):
    v = corrected(px, dark, gain)
    v = np.where((v <= bg) | (v >= xray), 0, v)
    p = np.pad(v, 1, constant_values=-1)
    h, w = v.shape
    best = np.full_like(v, -1)
    for dy in (0, 1, 2):
        for dx in (0, 1, 2):
            if (dy, dx) != (1, 1):
                best = np.maximum(best, p[dy:dy + h, dx:dx + w])
    return [int(i) for i in np.flatnonzero((v > best).ravel())]


def parse_events(text):
    """-> (settings, [[events of a frame, ...] per position])"""
    head, _, tail = text.partition(" events")
    d = dict(re.findall(r"(\w+)=(\S+)", head))
    d["scandims"] = re.search(r"scandims(\d+)x(\d+)", head).groups()
    d["framedims"] = re.search(r"framedims(\d+)x(\d+)", head).groups()
    pos = [[[int(x) for x in f.split(",")] if f else [] for f in p.split(";")] for p in re.findall(r"\{([^}]*)\}", tail)]
    return d, pos


def check_events(text, rec, frames, dark=None, gain=None, padded=True):
    """Compares counted events with those of every frame on its own, at the reported thresholds."""
    d, pos = parse_events(text)
    if d["scandims"] != (str(rec.dims[0]), str(rec.dims[1])) or d["framedims"] != (str(rec.size),) * 2:
        return f"wrong dimensions in {text}"
    if len(pos) != rec.dims[0] * rec.dims[1]:
        return f"{len(pos)} positions in {text}"
    bg, xray = float(d["bg"]), float(d["xray"])
    want = [[] for _ in pos]
    for p, f, px, sec in frames:
        want[p].append(events_of(px, bg, xray, dark, gain))
    longest = max(len(w) for w in want)
    for p, w in enumerate(want):
        w += [[] for _ in range(longest - len(w))]
        if sorted(w) != sorted(pos[p]):
            return f"position {p}: events {sorted(pos[p])}, counting every frame alone gives {sorted(w)} (thresholds {bg}, {xray})"
    return None


# ---------------------------------------------------------------- truncated files
RECORD_HEADER = 16


def truncated_frames(version, frames, dims, files, cut):
    """What is left of the frames when files are cut: {file name: bytes kept}.
    frames as in sector_files(); files: {name: (sector, [index of the frame of each record])}.
    Returns [(pos, frame number, pixels, intact sectors, {sector: bytes of its data that are left})]"""
    size = frames[0][2].size * 2 // 4 + RECORD_HEADER
    intact = [set() for _ in frames]
    torn = [{} for _ in frames]
    for name, (sector, idx) in files.items():
        left = cut.get(name, size * len(idx))
        for k, i in enumerate(idx):
            n = min(max(left - k * size, 0), size)
            if n == size:
                intact[i].add(sector)
            elif n >= RECORD_HEADER:
                torn[i][sector] = n - RECORD_HEADER
    return [(p, f, px, intact[i], torn[i]) for i, (p, f, px, _) in enumerate(frames)]


def damaged_variants(version, px, intact, torn):
    """The pixels that are acceptable for a frame: what has been cut is missing, or there as far as it was recorded."""
    base = visible(version, px, intact)
    out = [base]
    for s, n in torn.items():
        more = []
        for b in out:
            c = b.copy()
            sl = sector_slice(version, s, px.shape[0])
            raw = px[sl].astype("<u2").tobytes()
            c[sl] = np.frombuffer(raw[:n] + bytes(len(raw) - n), dtype="<u2").reshape(px[sl].shape)
            more.append(c)
        out += more
    return out


class Truncated:
    """Oracle for recordings of which some records have been cut."""

    def __init__(self, version, left, dims, scan=1, size=FRAME):
        self.version, self.left, self.dims, self.scan, self.size = version, left, dims, scan, size

    def text(self, p, f, px, flag):
        return block_text(self.version, self.scan, f, self.dims, p, px, flag, self.size)

    def check_blocks(self, got, kind):
        """kind: seq (no flag), thr (complete only), mp (everything)"""
        body = got[:got.index("]") + 1] if "]" in got else got
        blocks = split_list(body)
        if blocks is None:
            return f"got {got}"
        blocks = list(blocks)
        for p, f, px, intact, torn in self.left:
            complete = len(intact) == 4
            flag = None if kind == "seq" else complete
            if kind == "thr" and not complete:
                continue
            if not intact and not torn:
                continue
            if not torn:
                want = self.text(p, f, visible(self.version, px, intact), flag)
                if want not in blocks:
                    return f"frame {f} of position {p} with the intact sectors {sorted(intact)} is missing or wrong in {got}, expected {want}"
                blocks.remove(want)
            else:
                for v in damaged_variants(self.version, px, intact, torn):
                    t = self.text(p, f, v, None if kind == "seq" else False)
                    if t in blocks:
                        blocks.remove(t)
                        break
        if blocks:
            return f"unexpected blocks {blocks}"
        if kind == "seq":
            # complete frames come first
            n = sum(len(i) == 4 for _, _, _, i, _ in self.left)
            first = {self.text(p, f, px, None) for p, f, px, i, _ in self.left if len(i) == 4}
            if set(split_list(body)[:n]) != first:
                return f"the complete frames do not come first: {got}"
        return None

    def check_count(self, got, kind, dark=None, gain=None, samples=1):
        n = sum(len(i) == 4 for _, _, _, i, _ in self.left)
        if got.startswith("error"):
            return None if n < samples and "unexpected" not in got else f"{got}, although {n} frames are complete"
        if n < samples:
            return f"{got}, although only {n} frames are complete"
        d, pos = parse_events(got)
        bg, xray = float(d["bg"]), float(d["xray"])
        want = [[[]] for _ in pos]      # per position the acceptable lists
        for p, f, px, intact, torn in self.left:
            if kind == "thr" and len(intact) < 4 or not intact and not torn:
                continue
            opts = [[events_of(v, bg, xray, dark, gain)] for v in damaged_variants(self.version, px, intact, torn)]
            if torn:
                opts.append([])
            want[p] = [w + o for w in want[p] for o in opts]
        for p, w in enumerate(want):
            have = sorted(e for e in pos[p] if e)
            if not any(have == sorted(e for e in x if e) for x in w):
                return f"position {p}: events {pos[p]}, acceptable: {w} (thresholds {bg}, {xray})"
        return None
