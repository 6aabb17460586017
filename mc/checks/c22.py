"""C22: binning and reshaping a SparseArray equals binning / reshaping the dense array and conserves counts."""
import numpy as np
from mc import sparse_ref as R

NEEDS_PLAIN = True
PROPERTY = "C22"
BOUNDS = {"quick": "every event content of (1,)x(2,2)x1-2, (2,)x(2,2)x1, (1,1)x(2,4)x1, (1,)x(4,2)x1, (2,2)x(1,2)x1, (2,)x(1,2)x2, (4,)x(1,2)x1; structured contents on scans (2,3),(4,2),(4,),(6,),(3,3),(1,6) and frames (2,4),(6,3),(3,3),(4,4),(1,4); up to 300 frames per position; frames of 576x576; bin factors 1-4 and 16, in place or not; all reshapes",
          "thorough": "as quick plus every content of (1,)x(2,4)x2, (1,)x(4,2)x2, (2,2)x(2,2)x1 and (4,2)x(1,2)x1 (65536 each)"}


def cases(tier):
    out = []
    ex = [((1,), (2, 2), 1), ((1,), (2, 2), 2), ((2,), (2, 2), 1), ((1, 1), (2, 4), 1), ((1,), (4, 2), 1), ((2, 2), (1, 2), 1), ((2,), (1, 2), 2), ((4,), (1, 2), 1)]
    if tier == "thorough":
        ex += [((1,), (2, 4), 2), ((1,), (4, 2), 2), ((2, 2), (2, 2), 1), ((4, 2), (1, 2), 1)]
    for ss, fs, nf in ex:
        for ev in R.all_events(int(np.prod(ss)), nf, int(np.prod(fs))):
            out.append([ss, fs, ev])
    for ss in [(2, 3), (4, 2), (4,), (6,), (3, 3), (1, 6), (2, 4)]:
        for fs in [(2, 4), (6, 3), (3, 3), (4, 4), (1, 4), (2, 2)]:
            for nf in (1, 2, 3):
                for kind in ("empty", "mixed", "full", "one", "corner"):
                    out.append([ss, fs, R.pattern(kind, int(np.prod(ss)), nf, int(np.prod(fs)))])
    # pixels that many frames (and many pixels of a frame) end up in; frames of the real size
    for ss, fs, nf in [((1, 2), (16, 32), 3), ((32,), (1, 2), 3), ((2,), (2, 2), 150), ((1, 1), (4, 4), 20), ((2, 2), (576, 576), 2)]:
        for kind in ("full", "mixed") if nf > 2 else ("corner", "one", "empty"):
            out.append([ss, fs, [kind, nf]])
    return out


def bin_dense(d, axes, b):
    for ax in axes:
        sh = d.shape
        d = d.reshape(sh[:ax] + (sh[ax] // b, b) + sh[ax + 1:]).sum(axis=ax + 1)
    return d


def compare(got, want, what):
    if tuple(got.shape) != want.shape:
        return f"{what}: shape {got.shape}, expected {want.shape}"
    try:
        val = R.expand(got)
    except AssertionError as e:
        return f"{what}: {e}"
    if not R.same(val, want):
        return f"{what}: represents\n{val.tolist()}\nexpected\n{want.tolist()}"
    if not R.same(got.to_dense(), want):
        return f"{what}: to_dense() gives\n{got.to_dense().tolist()}\nexpected\n{want.tolist()}"
    return None


def factorings(n):
    return [(n,)] + [(a, n // a) for a in range(1, n + 1) if n % a == 0]


def run_case(case, ctx):
    from stempy.io.sparse_array import SparseArray
    ss, fs, ev = case
    ss, fs = tuple(ss), tuple(fs)
    if ev and isinstance(ev[0], str):
        ev = R.pattern(ev[0], int(np.prod(ss)), ev[1], int(np.prod(fs)))
    dense = R.dense(ev, ss, fs)
    ns = len(ss)

    def fresh():
        return SparseArray(R.make_data(ev), ss, fs, metadata={"a": 1})

    for op, axes, dims in (("bin_scans", range(ns), ss), ("bin_frames", range(ns, ns + 2), fs)):
        for b in (1, 2, 3, 4) + ((16,) if dims[0] == 16 or dims[-1] == 32 else ()):
            divides = all(x % b == 0 for x in dims)
            for in_place in (False, True):
                what = f"{op}({b}, in_place={in_place}) of scan {ss} frame {fs}, events {ev}"
                arr = fresh()
                try:
                    got = getattr(arr, op)(b, in_place=in_place)
                except Exception as e:
                    ctx.step(("raises", op))
                    if divides:
                        return f"{what}: raised {type(e).__name__}: {e}"
                    bad = compare(arr, dense, what + " (array after the error)")
                    if bad:
                        return bad
                    continue
                if not divides:
                    return f"{what}: did not raise"
                want = bin_dense(dense, axes, b)
                ctx.step((want.shape, want.tobytes()))
                bad = compare(got, want, what)
                if bad:
                    return bad
                if in_place and got is not arr:
                    return f"{what}: does not return the array itself"
                if not in_place:
                    if got is arr:
                        return f"{what}: returned the array itself"
                    bad = compare(arr, dense, what + " (original afterwards)")
                    if bad:
                        return bad
    # reshape / shape / ravel_scans
    for s2 in factorings(int(np.prod(ss))):
        for f2 in factorings(int(np.prod(fs)))[1::1 if dense.size < 10000 else 30]:
            for how in ("args", "tuple", "setter"):
                arr = fresh()
                shape = s2 + f2
                if how == "args":
                    got = arr.reshape(*shape)
                elif how == "tuple":
                    got = arr.reshape(shape)
                else:
                    arr.shape = shape
                    got = arr
                want = dense.reshape(shape)
                ctx.step((shape, want.tobytes()))
                bad = compare(got, want, f"reshape to {shape} ({how}) of scan {ss} frame {fs}, events {ev}")
                if bad:
                    return bad
    arr = fresh().ravel_scans()
    ctx.step()
    bad = compare(arr, dense.reshape((-1,) + fs), f"ravel_scans of scan {ss}, events {ev}")
    if bad:
        return bad
    for shape in [(int(np.prod(ss)) + 1,) + fs, ss + (fs[0], fs[1] + 1), (1,) + ss + fs if ns == 2 else (1, 1, 1) + ss + fs, fs]:
        arr = fresh()
        ctx.step(("raises", "reshape"))
        try:
            arr.reshape(*shape)
        except Exception:
            bad = compare(arr, dense, f"failed reshape to {shape}, array afterwards")
            if bad:
                return bad
            continue
        if int(np.prod(shape)) != dense.size or len(shape) not in (3, 4):
            return f"reshape of {ss + fs} to {shape} did not raise"
    return None
