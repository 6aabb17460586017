"""Builds /repo's current working tree (out of tree) in the variants the checks need."""
import fcntl, hashlib, os, pathlib, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("MC_REPO", "/repo"))
BUILD = VERIF / ".build"
PY = "/opt/stempy-venv/bin/python"
FRAME = 8          # frame edge of the small-frame builds (hook STEMPY_VERIFY_FRAME_SIZE)

SRC_DIRS = ["stempy", "python", "h5cpp", "thirdparty", "cmake", "CMakeLists.txt"]

VARIANTS = {
    # name: (cxx flags, targets, compile-only options)
    "plain": ("-O1 -w", [], ""),
    # the same for a detector of 8x8 pixels
    "plainsmall": (f"-O1 -w -DSTEMPY_VERIFY_FRAME_SIZE={FRAME}", [], ""),
    # all Python modules with AddressSanitizer (run with libasan preloaded)
    "pyasan": ("-O1 -w -fno-omit-frame-pointer -fsanitize=address -fsanitize=float-cast-overflow,bounds -fno-sanitize-recover=all", [], ""),
    # ... for a detector of 8x8 pixels
    "pysmall": (f"-O1 -w -fno-omit-frame-pointer -fsanitize=address -fsanitize=float-cast-overflow,bounds -fno-sanitize-recover=all -DSTEMPY_VERIFY_FRAME_SIZE={FRAME}", [], ""),
    "asan": (f"-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address -DSTEMPY_VERIFY_FRAME_SIZE={FRAME}", ["stem"], ""),
    "real": ("-O1 -w", ["stem"], ""),       # the detector at its real size
    "sched": (f"-O1 -g1 -w -fno-omit-frame-pointer -DSTEMPY_VERIFY_FRAME_SIZE={FRAME}", ["stem"],
              f"-fsanitize=thread -include {VERIF}/cpp/sched_prelude.h"),
    # the distributed build, with stand-ins for MPI and cereal
    "mpisched": (f"-O1 -g1 -w -fno-omit-frame-pointer -DSTEMPY_VERIFY_FRAME_SIZE={FRAME}", ["stem"],
                 f"-fsanitize=thread -include {VERIF}/cpp/sched_prelude.h"),
    "mpiasan": (f"-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address -DSTEMPY_VERIFY_FRAME_SIZE={FRAME}", ["stem"], ""),
}
MPI = str(VERIF / "cpp/mpi")


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        p = pathlib.Path(p)
        files = [p] if p.is_file() else sorted(x for x in p.rglob("*") if x.is_file() and "__pycache__" not in x.parts)
        for f in files:
            h.update(str(f).encode())
            h.update(f.read_bytes())
    return h.hexdigest()[:16]


def repo_hash(extra=""):
    return tree_hash([REPO / d for d in SRC_DIRS if (REPO / d).exists()], extra)


class BuildError(Exception):
    pass


def _run(cmd, env=None, log=None):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(f"{' '.join(map(str, cmd))}\n{r.stdout[-4000:]}")
    return r.stdout


def build(variant, meanwhile=None):
    """Configure and build a variant; returns its build directory. Incremental, and guarded by a lock.
    meanwhile is called once the configuration has been done."""
    flags, targets, copts = VARIANTS[variant]
    bdir = BUILD / variant
    bdir.mkdir(parents=True, exist_ok=True)
    with open(BUILD / f"{variant}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mpi = variant.startswith("mpi")
        prelude = (VERIF / "cpp/sched_prelude.h").read_text() if "prelude" in copts else ""
        key = repo_hash(flags + copts + prelude + (tree_hash([MPI]) if mpi else ""))
        stamp = bdir / "mc.stamp"
        if stamp.exists() and stamp.read_text() == key:
            if meanwhile:
                meanwhile()
            return bdir
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8", MC_COMPILE_OPTIONS=copts, **({"MC_MPI": MPI} if mpi else {}))
        links = bdir / "lib/stempy"
        if links.is_dir():
            for p in links.iterdir():
                if p.is_symlink():
                    p.unlink()
        t0 = time.time()
        _run(["cmake", "-S", str(REPO), "-B", str(bdir), "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
              f"-DCMAKE_CXX_FLAGS={flags}",
              f"-DCMAKE_PROJECT_stempy_INCLUDE={VERIF}/cmake/project_include.cmake",
              f"-DPython3_EXECUTABLE={PY}", "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF", "-Dstempy_ENABLE_HDF5=ON", f"-Dstempy_ENABLE_MPI={'ON' if mpi else 'OFF'}",
              "-Dstempy_ENABLE_VTKm=OFF"], env)
        if meanwhile:
            meanwhile()
        _run(["ninja", "-C", str(bdir)] + targets, env)
        stamp.write_text(key)
        print(f"[build] {variant}: {time.time() - t0:.1f} s", file=sys.stderr)
    return bdir


def shared(name):
    """Builds /verif/cpp/<name>.cpp as a shared library (to preload)."""
    out = BUILD / "bin" / f"{name}.so"
    out.parent.mkdir(parents=True, exist_ok=True)
    with open(BUILD / f"{name}.so.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _run(["g++", "-O1", "-fPIC", "-shared", str(VERIF / "cpp" / f"{name}.cpp"), "-o", str(out)])
    return out


def harness(variant, name, sources, extra_flags=(), link=()):
    """Build a C++ harness against a variant of libstem."""
    bdir = BUILD / variant
    flags = VARIANTS[variant][0].split()
    out = BUILD / "bin" / f"{name}.{variant}"
    out.parent.mkdir(parents=True, exist_ok=True)
    with open(BUILD / f"{name}.{variant}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = repo_hash(tree_hash([VERIF / "cpp"], " ".join(flags) + " ".join(extra_flags) + repr(sources)))
        stamp = pathlib.Path(str(out) + ".stamp")
        if stamp.exists() and out.exists() and stamp.read_text() == key:
            return out
        incs = ["-I", str(REPO), "-I", str(bdir), "-I", str(REPO / "stempy"), "-I", str(bdir / "stempy"), "-I", str(REPO / "thirdparty/ThreadPool"),
                "-I", str(VERIF / "cpp"), "-I", "/usr/include/eigen3", "-I", "/usr/include/hdf5/serial", "-I", "/usr/include/python3.12",
                *(["-I", MPI] if variant.startswith("mpi") else [])]
        objs, procs = [], []

        def compile():
            for spec in sources:
                s, more = (spec, []) if isinstance(spec, str) else spec
                o = BUILD / "bin" / f"{name}.{variant}.{pathlib.Path(s).stem}.o"
                cmd = ["g++", "-std=c++17", *flags, *more, *extra_flags, *incs, "-c", str(VERIF / "cpp" / s), "-o", str(o)]
                procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                objs.append(str(o))

        build(variant, compile)
        for cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError(f"{' '.join(cmd)}\n{o[-4000:]}")
        lib = next(p for p in bdir.rglob("libstem.so*") if p.is_file())
        _run(["g++", *flags, *objs, "-o", str(out), "-rdynamic", str(lib), f"-Wl,-rpath,{lib.parent}",
              "-l:libpython3.12.so.1.0", "-lpthread", "-ldl", *link])
        stamp.write_text(key)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:]:
        print(build(v))
