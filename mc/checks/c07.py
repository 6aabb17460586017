"""C07: block files (versions 1, 2, 3): every distribution over files and every truncation."""
import itertools, struct
import numpy as np
from mc import ops
from mc.sectors import FRAME, crc
from mc.readers_ref import split_list

NEEDS_VENV = True
PROPERTY = "C07"
BOUNDS = {"quick": "every distribution of up to 4 blocks (version 1: 5 kinds of blocks; version 2: up to 2; version 3) over up to 4 files, empty files included, in every order of the kinds; "
                   "every truncation point of files of 1 and 2 blocks (version 1: 4 to 40 bytes of data, version 3: 8x8 detector; version 2, blocks of 200 kB: 260 places), followed by no, an empty or a further file; "
                   "all 3-digit combinations of header values from {0, 1, 2, 255, 65535} (version 3); version 1 headers with 1 to 1014 images and all combinations of three image numbers from {0, 1, 2, 3, 2^32 - 2}; wrong versions, missing files; histories read/rewind around the error; 3 files of the real detector size",
          "thorough": "as quick with up to 6 blocks over 5 files and every 37th truncation point of version 2"}
ASSUMPTIONS = ["what is read after an error, without a rewind, is not specified beyond never being altered data", "8x8 detector for versions 2 and 3 (hook STEMPY_VERIFY_FRAME_SIZE) except in the real-size part"]
CASE_TIMEOUT = 60
V2_IMAGES = 1600


def pixels(k, n):
    return ((np.arange(n) * 7 + 13 + 1009 * k) % 65536).astype("<u2")


def text(version, scan, frame, dims, fdims, n, images):
    return f"v{version} scan{scan} frame{frame} scandims{dims[0]}x{dims[1]} framedims{fdims[0]}x{fdims[1]} n{n} complete " + " ".join(f"{i}:{c}" for i, c in images)


V1_KINDS = [(1, (2, 1)), (3, (2, 2)), (2, (3, 1)), (1, (1, 4)), (2, (5, 2))]     # images, (width, height)


def v1_block(k, images, fdims, numbers=None):
    numbers = numbers or [10 * k + 2 * i for i in range(images)]
    n = fdims[0] * fdims[1]
    head = np.zeros(1024, dtype="<u4")
    head[:5] = [images, fdims[1], fdims[0], 1, 99 + k]
    head[5:10] = 0xABCD
    head[10:10 + images] = [(x + 1) & 0xFFFFFFFF for x in numbers]
    head[10 + images:] = 77777
    px = pixels(k, n * images)
    return head.tobytes() + px.tobytes(), text(1, 0, 0, (0, 0), fdims, images, [(x, crc(px[i * n:(i + 1) * n])) for i, x in enumerate(numbers)])


def v2_block(k, size=FRAME):
    n = size * size
    px = pixels(k, n * V2_IMAGES)
    return struct.pack("<I", 5 + k) + px.tobytes(), text(2, 0, 0, (0, 0), (size, size), V2_IMAGES, [(i, crc(px[i * n:(i + 1) * n])) for i in range(V2_IMAGES)])


def v3_block(k, scan=4, frame=None, dims=(3, 2), pos=None, size=FRAME):
    frame = k if frame is None else frame
    x, y = (k % dims[0], k // dims[0] % dims[1]) if pos is None else pos
    px = pixels(k, size * size)
    head = struct.pack("<IIHHHH", scan, frame, dims[0], dims[1], x, y)
    return head + px.tobytes(), text(3, scan, frame, dims, (size, size), 1, [((y * dims[0] + x) & 0xFFFFFFFF, crc(px))])


_cache = {}


def block(version, k):
    if (version, k) not in _cache:
        _cache[version, k] = v1_block(k, *V1_KINDS[k % 5]) if version == 1 else v2_block(k) if version == 2 else v3_block(k)
    return _cache[version, k]


def setup():
    ops.setup(real=True)


def spreads(n, files):
    """Every way to put n blocks into files, in order"""
    if files == 1:
        return [[n]]
    return [[k] + r for k in range(n + 1) for r in spreads(n - k, files - 1)]


def cases(tier):
    out = []
    most, files = (4, 4) if tier != "thorough" else (6, 5)
    for n in range(0, most + 1):
        for nf in range(1, files + 1):
            for sp in spreads(n, nf):
                out.append(["split", 3, sp, list(range(n))])
                if n <= 2:
                    out.append(["split", 2, sp, list(range(n))])
    for perm in itertools.chain(*(itertools.permutations(range(5), r) for r in (1, 2, 3))):
        for sp in spreads(len(perm), 3):
            out.append(["split", 1, sp, list(perm)])
    for v in (3, 1):
        for n in (1, 2):
            for k in range(5 if v == 1 else 1):
                ks = [k, (k + 2) % 5][:n]
                lens = [len(block(v, k)[0]) for k in ks]
                total = sum(lens)
                for t in range(total):
                    # the places inside a header of version 1 are alike; take each of them only for one kind of block
                    if v == 1 and k and t % 97 and min(abs(t - x) for x in (0, 4096, lens[0], lens[0] + 4096, total)) > 50:
                        continue
                    for tail in (0, 1, 2):
                        if v == 1 and tail and t % 5 and not (4090 < t % 4200):
                            continue
                        out.append(["cut", v, ks, t, tail])
    L = len(block(2, 0)[0])
    places = sorted({*range(0, 12), *range(L - 6, L), *range(L, L + 10), *range(2 * L - 6, 2 * L), *range(64, 2 * L, 37 if tier == "thorough" else 1777)})
    for t in places:
        out.append(["cut", 2, [0, 1], t, t % 3])
    vals = [0, 1, 2, 255, 65535]
    for d in itertools.product(vals, repeat=2):
        for pos in itertools.product(vals, repeat=2):
            out.append(["head3", d, pos])
    for n in [1, 2, 3, 5, 100, 511, 1012, 1013, 1014, 1015, 1016, 1024, 4096, 70000]:
        out.append(["head1", n])
    for numbers in itertools.product([0, 1, 2, 3, 0xFFFFFFFE], repeat=3):
        out.append(["numbers1", numbers])
    for h in itertools.product(range(5), repeat=4):
        out.append(["history", 3, h])
    out += [["errors"]] + [["real", v] for v in (1, 2, 3)]
    return out


def run_case(case, ctx):
    try:
        return globals()["do_" + case[0]](ctx, *case[1:])
    except ops.Failure as e:
        return f"{case}: {e}"


def expect(ctx, got, want, what):
    ctx.step((what[0], tuple(str(g)[:300] for g in got)))
    for g, w in zip(got, ["ok"] + want):
        if isinstance(w, list):
            w = "[" + " | ".join(w) + "]"
        if g != w:
            return f"{what}: got {g[:900]}\nexpected {str(w)[:900]}"
    return None


def do_split(ctx, v, spread, ks):
    data, texts, it = {}, [], iter(ks)
    for i, n in enumerate(spread):
        bs = [block(v, next(it)) for _ in range(n)]
        data[f"f{i}.data"] = b"".join(b for b, _ in bs)
        texts += [t for _, t in bs]
    files = ops.write_files(data)
    todo = ["drain", "read", "reset", "iterate", "read", "reset"] + ["read"] * (len(ks) + 1)
    got = ops.run(ops.scenario("stream", v, 1, files, todo))
    return expect(ctx, got, [texts, "none", "ok", texts, "none", "ok"] + texts + ["none"], f"blocks {ks} of version {v} in files of {spread}")


EOF = "error invalid_argument: Unexpected EOF"


def do_cut(ctx, v, ks, t, tail):
    bs = [block(v, k) for k in ks]
    whole = b"".join(b for b, _ in bs)
    data = {"f0.data": whole[:t]}
    if tail == 1:
        data["f1.data"] = b""
    extra = []
    if tail == 2:
        data["f1.data"] = block(v, (ks[0] + 1) % 5)[0]
        extra = [block(v, (ks[0] + 1) % 5)[1]]
    intact, end = [], 0
    for b, x in bs:
        if end + len(b) <= t:
            intact.append(x)
            end += len(b)
        else:
            break
    torn = t > end
    files = ops.write_files(data)
    todo = ["drain", "drain", "reset", "drain", "reset", "iterate"]
    got = ops.run(ops.scenario("stream", v, 1, files, todo))
    what = f"blocks {ks} of version {v} cut after {t} bytes, {['alone', 'with an empty file following', 'with a file following'][tail]}: "
    ctx.step((v, t if v != 1 else min(t, 4100), tail, len(intact), torn))
    if not torn:
        return expect(ctx, got, [intact + extra, [], "ok", intact + extra, "ok", intact + extra], what)
    full = "[" + " | ".join(intact) + "]"
    for i in (1, 4):
        if not got[i].startswith(full + " error "):
            return f"{what}got {got[i][:900]}\nexpected an error after {full[:900]}"
    if not got[6].startswith("error "):
        return f"{what}iterating: got {got[6][:900]}, expected an error"
    rest = got[2][:got[2].rindex("]") + 1]
    if any(x not in extra for x in split_list(rest)):
        return f"{what}reading on after the error: {got[2][:900]}"
    return None


def do_head3(ctx, dims, pos):
    b, t = v3_block(3, 0xFFFFFFFF, 0xFFFFFFFE, dims, pos)
    files = ops.write_files({"f0.data": b})
    got = ops.run(ops.scenario("stream", 3, 1, files, ["drain"]))
    if got[1] != f"[{t}]" and pos[0] >= dims[0] or pos[1] >= dims[1]:
        # not a place of the scan: an error would be fine too
        return None if got[1] == f"[{t}]" or got[1].startswith("[] error") else f"header {dims} {pos}: got {got[1]}"
    return expect(ctx, got, [[t]], f"header {dims} {pos}")


def do_head1(ctx, n):
    if n <= 1014:
        b, t = v1_block(1, n, (1, 1), [(i * 65537) & 0xFFFFFFFF for i in range(n)])
        files = ops.write_files({"f0.data": b})
        return expect(ctx, ops.run(ops.scenario("stream", 1, 1, files, ["drain"])), [[t]], f"{n} images")
    b = struct.pack("<IIIII", n, 1, 1, 1, 0) + bytes(range(256)) * 16 + bytes(2 * n)
    files = ops.write_files({"f0.data": b})
    got = ops.run(ops.scenario("stream", 1, 1, files, ["drain"]))
    ctx.step(("head1", n, got[1][:40]))
    return None if got[1].startswith("[] error") else f"a header of {n} images was read: {got[1][:300]}"


def do_numbers1(ctx, numbers):
    """Image numbers in any order, repeated ones and the smallest and largest ones, in two blocks."""
    bs = [v1_block(1, 3, (2, 1), list(numbers)), v1_block(2, 2, (1, 2), [numbers[2], numbers[0]])]
    files = ops.write_files({"f0.data": b"".join(b for b, _ in bs)})
    return expect(ctx, ops.run(ops.scenario("stream", 1, 1, files, ["drain", "reset", "iterate"])), [[t for _, t in bs], "ok", [t for _, t in bs]], f"image numbers {numbers}")


def do_history(ctx, v, h):
    """Histories around a truncated block: after a rewind everything is as it was."""
    b = [block(3, k) for k in range(3)]
    files = ops.write_files({"f0.data": b[0][0] + b[1][0][:77], "f1.data": b[2][0]})
    alphabet = ["read", "reset", "drain", "readn 2", "iterate"]
    todo = [alphabet[i] for i in h] + ["reset", "read", "read", "reset", "drain"]
    got = ops.run(ops.scenario("stream", 3, 1, files, todo))
    state = 0           # blocks read since the rewind; None: an error was raised
    for op, g in zip(todo, got[1:]):
        w = op.split()
        m = None
        if w[0] == "reset":
            state = 0
            m = g != "ok"
        elif state is None:
            m = b[1][1] in g
        elif w[0] == "read":
            m = g != b[0][1] if state == 0 else not g.startswith("error")
            state = 1 if state == 0 else None
        else:
            m = not g.startswith(f"[{b[0][1]}] error" if w[0] == "drain" and state == 0 else "[] error" if w[0] == "drain" else "error")
            state = None
        ctx.step(("history", state, op))
        if m:
            return f"files with a truncated block: {todo}: {op} returned {g}"
    return None


def do_errors(ctx):
    import os
    files = ops.write_files({"f0.data": v3_block(0)[0], "f1.data": v3_block(1)[0]})
    for v in (0, 4, 5, 6, 255):
        got = ops.run(ops.scenario("stream", v, 1, files, ["drain"]))
        ctx.step(got[-1][:30])
        if not got[-1].startswith(("[] error invalid_argument", "error invalid_argument")):
            return f"version {v}: {got}"
    if not ops.run(ops.scenario("stream", 3, 1, [], []))[0].startswith("error invalid_argument"):
        return "no files: no error"
    for k in range(2):
        os.remove(files[k])
        got = ops.run(ops.scenario("stream", 3, 1, files, ["drain", "reset"]))
        want = "error" if k == 0 else "[" + v3_block(0)[1] + "] error"
        if not got[k].startswith(want):
            return f"file {k} missing: {got}"
        ops.write_files({f"f{k}.data": v3_block(k)[0]})
    return None


def do_real(ctx, v):
    if v == 1:
        blocks = [v1_block(0, 2, (576, 576)), v1_block(1, 3, (100, 700)), v1_block(2, 1014, (9, 8))]
    elif v == 2:
        # the documented size of a block of this version, 1600 images (1 GB): only that its truncation is noticed
        files = ops.write_files({"r0.data": struct.pack("<I", 0) + pixels(0, 576 * 576).tobytes()})
        got = ops.run_real(ops.scenario("stream", 2, 1, files, ["drain"]), 60)
        ctx.step(got[1][:40])
        return None if got[1].startswith("[] error") else f"a truncated block of version 2: {got[1][:200]}"
    else:
        blocks = [v3_block(k, size=576) for k in range(3)]
    whole = b"".join(b for b, _ in blocks)
    texts = [t for _, t in blocks]
    n = len(blocks[0][0])
    for data, want in ((whole, texts), (whole[:-1], texts[:2]), (whole[:n + 5], texts[:1]), (whole[:n + 70000], texts[:1]), (whole[:n], texts[:1])):
        files = ops.write_files({"r0.data": data})
        got = ops.run_real(ops.scenario("stream", v, 1, files, ["drain"]), 60)
        ctx.step(("real", v, len(want)))
        full = "[" + " | ".join(want) + "]"
        if got[1] != full if len(data) in (len(whole), n) else not got[1].startswith(full + " error"):
            return f"real size, version {v}, {len(data)} bytes of {len(whole)}: got {got[1][:600]}\nexpected {full[:600]}"
    return None
