"""Runs operation sequences on the C++ readers: once (AddressSanitizer build, small detector), or under all schedules
within a bound (scheduler build, small detector)."""
import atexit, os, re, select, shutil, subprocess, tempfile, time
from mc import build

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:quarantine_size_mb=16:malloc_context_size=8:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "abort_on_error=1:halt_on_error=1"}
STEP_TIMEOUT = 20


def build_asan():
    return build.harness("asan", "ops", [("ops.cpp", ["-DMC_H5"]), "mc_random.cpp"])


def build_real():
    return build.harness("real", "ops", [("ops.cpp", ["-DMC_H5"])])


def build_sched():
    pre = str(build.VERIF / "cpp/sched_prelude.h")
    return build.harness("sched", "ops", [("ops.cpp", ["-DMC_SCHED", "-fsanitize=thread", "-include", pre]), ("sched_rt.cpp", ["-O2", "-fno-threadsafe-statics"])])


def build_mpiasan():
    return build.harness("mpiasan", "ops", [("ops.cpp", ["-DMC_MPI"]), "mpi_ranks.cpp", "mc_random.cpp"])


def build_mpisched():
    pre = ["-fsanitize=thread", "-include", str(build.VERIF / "cpp/sched_prelude.h")]
    return build.harness("mpisched", "ops", [("ops.cpp", ["-DMC_MPI", "-DMC_SCHED", *pre]), ("mpi_ranks.cpp", ["-DMC_SCHED", *pre]),
                                             ("sched_rt.cpp", ["-O2", "-fno-threadsafe-statics"])])


class Failure(Exception):
    """The implementation failed on its own: crash, hang, race, deadlock, ..."""


_dir = None


def scratch():
    global _dir
    if _dir is None or not _dir[1] == os.getpid():
        # the workers of a check put theirs in the directory of the check, which removes it at the end
        where = os.environ.get("MC_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        d = tempfile.mkdtemp(prefix="mcops_", dir=where)
        _dir = (d, os.getpid())
        from multiprocessing import util
        util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
        atexit.register(shutil.rmtree, d, True)
    return _dir[0]


def cleanup():
    global _dir, _batch, _real, _mpi
    if _mpi is not None and _mpi[1] == os.getpid():
        _mpi[0].close()
        _mpi = None
    if _real is not None and _real[1] == os.getpid():
        _real[0].close()
        _real = None
    if _batch is not None and _batch[1] == os.getpid():
        _batch[0].close()
        _batch = None
    if _dir is not None and _dir[1] == os.getpid():
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir = None


def write_files(files):
    """files: {name: bytes} -> list of paths"""
    d = scratch()
    out = []
    for name, data in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        out.append(p)
    return out


def scenario(kind, version, threads, files, ops, **settings):
    return (f"reader {kind} {version} {threads}\n" + "".join(f"file {f}\n" for f in files) + "".join(f"op {o}\n" for o in ops)
            + "".join(f"set {k} {v}\n" for k, v in settings.items()) + "end\n")


def parse(text):
    """-> list of results, the first one for the construction"""
    out = []
    for line in text.splitlines():
        out.append(line.split(" ", 1)[1] if " " in line else "")
    return out


def child_env():
    """The environment without what is meant for the interpreter only"""
    return {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH")}


class Batch:
    def __init__(self, exe, err="stderr"):
        self.exe, self.errname = exe, err
        self.p = None

    def start(self):
        self.err = open(os.path.join(scratch(), self.errname), "w+b")
        self.p = subprocess.Popen([str(self.exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=dict(child_env(), **ASAN_ENV))

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def run(self, text, timeout=STEP_TIMEOUT):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(text.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        buf = b""
        fd = self.p.stdout.fileno()
        end = time.time() + timeout
        while not buf.endswith(b"END\n"):
            rd, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not rd:
                self.close()
                raise Failure(f"no answer within {timeout} s (hang) after:\n{buf.decode()}")
            b = os.read(fd, 1 << 16)
            if not b:
                st = self.p.wait()
                self.err.flush()
                self.err.seek(0)
                err = self.err.read().decode(errors="replace")
                self.close()
                m = re.search(r"ERROR: (.*)", err)
                frames = "\n".join(re.findall(r"#\d+ \S+ in (.*)", err)[:6])
                raise Failure(f"crashed (status {st}) {m.group(1) if m else err[-300:]}\n{frames}\nafter:\n{buf.decode()}")
            buf += b
        return parse(buf.decode()[:-4])


_batch = None
_real = None
_mpi = None
_exe = {}


def setup(asan=True, sched=False, real=False, mpi=False):
    if "MC_SCRATCH" not in os.environ:
        os.environ["MC_SCRATCH"] = scratch()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        jobs = {k: ex.submit(f) for k, f, on in (("asan", build_asan, asan), ("sched", build_sched, sched), ("real", build_real, real),
                                                          ("mpiasan", build_mpiasan, mpi), ("mpisched", build_mpisched, mpi)) if on}
        for k, j in jobs.items():
            _exe[k] = j.result()


def run(text, timeout=STEP_TIMEOUT):
    """Runs a scenario once; returns the list of results. Raises Failure if it crashes or hangs."""
    global _batch
    if _batch is None or _batch[1] != os.getpid():
        _batch = (Batch(_exe.get("asan") or build_asan()), os.getpid())
    return _batch[0].run(text, timeout)


def run_real(text, timeout=STEP_TIMEOUT):
    """Runs a scenario once with the real detector size."""
    global _real
    if _real is None or _real[1] != os.getpid():
        _real = (Batch(_exe.get("real") or build_real(), "stderr_real"), os.getpid())
    return _real[0].run(text, timeout)


def run_mpi(text, timeout=STEP_TIMEOUT):
    """Runs a scenario once on several ranks."""
    global _mpi
    if _mpi is None or _mpi[1] != os.getpid():
        _mpi = (Batch(_exe.get("mpiasan") or build_mpiasan(), "stderr_mpi"), os.getpid())
    return _mpi[0].run(text, timeout)


def symbolize(msg):
    def sym(m):
        r = subprocess.run(["addr2line", "-Cfse", m.group(1), m.group(2)], capture_output=True, text=True, env=child_env()).stdout.split("\n")
        return f"{r[0]} ({r[1]})" if len(r) > 1 else m.group(0)
    return re.sub(r"(/\S+)\+(0x[0-9a-f]+)", sym, msg)


def explore(text, timeout=700, mpi=False):
    """Explores all schedules of a scenario within its bound.
    Returns (stats, [(schedule, results)]); raises Failure with the schedule."""
    exe = _exe.get("mpisched") or build_mpisched() if mpi else _exe.get("sched") or build_sched()
    try:
        r = subprocess.run([str(exe)], input=text, text=True, capture_output=True, timeout=timeout, env=child_env())
    except subprocess.TimeoutExpired:
        raise Failure(f"an execution does not end (no answer within {timeout} s)")
    out = r.stdout
    if r.returncode == 9:
        raise Failure(symbolize(out))
    if r.returncode != 0:
        raise Failure(f"harness exited with status {r.returncode}: {out[-500:]} {r.stderr[-500:]}")
    head, _, rest = out.partition("\n")
    stats = {k: int(v) for k, v in re.findall(r"(\w+)=(\d+)", head)}
    outcomes = []
    for part in rest.split("END\n")[:-1]:
        first, _, body = part.partition("\n")
        outcomes.append((first.split(" ", 1)[1], parse(body)))
    return stats, outcomes


def note(ctx, stats):
    """Adds the numbers of an exploration to the evidence."""
    ctx.transitions += stats["steps"]
    ctx.count("schedules", stats["executions"])
    ctx.count("schedule_states", stats["states"])
    ctx.count("pruned", stats["pruned"])
    if not stats["exhaustive"]:
        ctx.count("not_exhausted")
