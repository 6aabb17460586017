"""Sector and block files, and what the readers have to return for them (independent of the implementation)."""
import struct, zlib
import numpy as np

FRAME = 8


def sector_slice(version, sector, frame=FRAME):
    """The part of a frame a sector covers."""
    w = frame // 4
    if version == 4:
        return (slice(0, frame), slice(sector * w, (sector + 1) * w))
    return (slice(sector * w, (sector + 1) * w), slice(0, frame))


def header(scan, frame, dims, pos):
    """dims = (width, height)"""
    return struct.pack("<IIHHHH", scan, frame, dims[0], dims[1], pos % dims[0], pos // dims[0])


def record(version, scan, frame, dims, pos, sector, pixels):
    return header(scan, frame, dims, pos) + np.ascontiguousarray(pixels[sector_slice(version, sector, pixels.shape[0])]).astype("<u2").tobytes()


def crc(pixels):
    return "%08x" % zlib.crc32(np.ascontiguousarray(pixels).astype("<u2").tobytes())


def unique_frame(pos, frame, size=FRAME):
    """Pixels that all differ, also between frames, and are never zero."""
    return (1 + pos * 211 + frame * 1009 + np.arange(size * size)).astype(np.uint16).reshape(size, size)


def block_text(version, scan, frame, dims, pos, pixels, complete=None, size=FRAME):
    c = "" if complete is None else "1" if complete else "0"
    return f"v{version} scan{scan} frame{frame} scandims{dims[0]}x{dims[1]} framedims{size}x{size} n1 complete{c} {pos}:{crc(pixels)}"


# Values with a roughly normal distribution (64 of them)
_NOISE = np.array([96] * 1 + [97] * 4 + [98] * 7 + [99] * 12 + [100] * 16 + [101] * 12 + [102] * 7 + [103] * 4 + [104] * 1, dtype=np.uint16)


def count_frame(pos, frame, size=FRAME, strength=40):
    """A frame with noise and a few events at places that depend on the position and frame number."""
    n = size * size
    idx = (np.arange(n) * 29 + pos * 7 + frame * 3) % n
    base = np.resize(_NOISE, n)[idx].reshape(size, size).copy()
    for k, step in enumerate((5, 19, 42)):
        e = (step + 9 * pos + 23 * frame) % n
        base[e // size, e % size] = 100 + strength + k + 3 * pos + 5 * frame
    return base


def sector_files(version, frames, dims, scan=1, split=None, order=None, skip=()):
    """Files of a recording. frames: [(pos, frame number, pixels, set of sectors)];
    order: {sector: permutation of the records}; split: {sector: number of records in its first file}.
    Returns {name: bytes}, in the order of the sectors."""
    out = {}
    for s in range(4):
        recs = [record(version, scan, f, dims, p, s, px) for p, f, px, sec in frames if s in sec]
        if order and s in order:
            recs = [recs[i] for i in order[s] if i < len(recs)]
        if split and s in split:
            out[f"data_scan{scan:010d}_module{s}_0.data"] = b"".join(recs[:split[s]])
            out[f"data_scan{scan:010d}_module{s}_1.data"] = b"".join(recs[split[s]:])
        else:
            out[f"data_scan{scan:010d}_module{s}.data"] = b"".join(recs)
    return out


ALL = frozenset(range(4))


def visible(version, pixels, sectors):
    """The pixels of a frame of which only some sectors have been recorded."""
    out = np.zeros_like(pixels)
    for s in sectors:
        sl = sector_slice(version, s, pixels.shape[0])
        out[sl] = pixels[sl]
    return out
