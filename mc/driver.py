"""Exhaustive driver: runs every case of a bounded space on the real code, in parallel worker processes.

A check module provides
    PROPERTY   the property id
    cases(tier)         -> list (or iterable) of JSON-serialisable cases; the whole bounded space, simplest first
    run_case(case, ctx) -> None, or a string saying how the implementation differs from the reference model.
                           ctx.step(state) records one executed transition and the (hashable) state reached.
    finding_key(case, msg) -> optional; a stable identification of what failed, matched with known_findings.json
"""
import hashlib, json, mmap, os, pathlib, pickle, signal, struct, sys, time, traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPLAYS = VERIF / "replays"
NPROC = int(os.environ.get("MC_JOBS", os.cpu_count() or 8))
CASE_TIMEOUT = 60
FAIL_GRACE = 30         # seconds to look for more after the first violation
CONFIRM_LIMIT = 240
DEADLINE = 840 if os.environ.get("VERIF_TIER", "quick") == "quick" else 7200
MAX_FAIL_PER_WORKER = 40


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


class Ctx:
    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.extra = {}

    def count(self, name, n=1):
        """Adds to a number reported in the evidence."""
        self.extra[name] = self.extra.get(name, 0) + n

    def step(self, state=None):
        self.transitions += 1
        if state is not None:
            self.states.add(hash_state(state))


def hash_state(s):
    if not isinstance(s, bytes):
        s = repr(s).encode()
    return hashlib.blake2b(s, digest_size=8).digest()


def known_findings(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text()) if e["property"] == prop and e.get("status") == "known"]


def _worker(mod, cases, counter, slot, slots, wfd, limit, chunk):
    ctx = Ctx()
    fails, done, capped, slowest, ran = [], 0, False, (0.0, -1), []
    t_end = limit
    known = {e["key"] for e in known_findings(mod.PROPERTY)}
    key_of = finding_key(mod)
    while True:
        with counter_lock(counter):
            start = struct.unpack("q", counter.buf[:8])[0]
            # slow cases (schedules) are handed out one by one
            size = 1 if start < len(cases) and isinstance(cases[start], list) and cases[start][0] == "sched" else chunk
            counter.buf[:8] = struct.pack("q", start + size)
        if start >= len(cases):
            break
        for i in range(start, min(start + size, len(cases))):
            slots[slot * 16:slot * 16 + 16] = struct.pack("qd", i, time.time())
            t_case = time.time()
            ran.append(i)
            try:
                msg = mod.run_case(cases[i], ctx)
            except Exception:
                msg = "harness/implementation raised: " + traceback.format_exc()[-1500:]
            done += 1
            took = time.time() - t_case
            slowest = max(slowest, (took, i))
            if msg is not None:
                fails.append((i, msg, took, ran[:-1]))
                if key_of(cases[i], msg) not in known:
                    counter.failed()
            if counter.enough():
                break
        if counter.enough():        # there is something to report, don't explore the rest
            capped = True
            break
        if len(fails) > MAX_FAIL_PER_WORKER:
            capped = True
            break
        if time.time() > t_end:
            capped = True
            break
    slots[slot * 16:slot * 16 + 16] = struct.pack("qd", -1, 0.0)
    blob = pickle.dumps((done, ctx.transitions, ctx.states, fails, capped, slowest, ctx.extra))
    with os.fdopen(wfd, "wb") as f:
        f.write(blob)


class Counter:
    def __init__(self):
        self.buf = mmap.mmap(-1, 4096)
        import multiprocessing
        self.lock = multiprocessing.Lock()

    def failed(self):
        with counter_lock(self):
            if struct.unpack("d", self.buf[8:16])[0] == 0:
                self.buf[8:16] = struct.pack("d", time.time())

    def enough(self):
        t = struct.unpack("d", self.buf[8:16])[0]
        return t != 0 and time.time() - t > FAIL_GRACE


def finding_key(mod):
    return getattr(mod, "finding_key", lambda case, msg: json.dumps(case, sort_keys=True))


class counter_lock:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.c.lock.acquire()

    def __exit__(self, *a):
        self.c.lock.release()


def run_alone(mod, case, timeout, before=()):
    """Runs one case (after others, whose results are not looked at) in a fresh child process. Returns the failure message or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        for c in before:
            try:
                mod.run_case(c, Ctx())
            except Exception:
                pass
        try:
            msg = mod.run_case(case, Ctx())
        except Exception:
            msg = "harness/implementation raised: " + traceback.format_exc()[-1500:]
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(msg))
        os._exit(0)
    os.close(w)
    import select
    buf, end = b"", time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return f"no answer within {timeout} s (hang)"
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return f"crashed with signal {os.WTERMSIG(st)} ({signal.Signals(os.WTERMSIG(st)).name})"
    if not buf:
        return f"exited with status {os.WEXITSTATUS(st)}"
    return pickle.loads(buf)


def with_history(mod, cases, i, ran, timeout, end):
    """A case that failed in a worker but not alone: whether it does after the cases that the worker had run before
    (something is kept in the process from one to the next). Returns (the shortest such list tried, message) or None."""
    k = 1
    while ran and time.time() < end:
        before = [cases[j] for j in ran[-k:]]
        msg = run_alone(mod, cases[i], max(1, min(timeout, end - time.time())), before)
        if msg is not None and not msg.startswith("no answer"):
            return before, "only after other cases in the same process: " + msg
        if k >= len(ran):
            break
        k *= 4
    return None


def explore(mod, cases, time_limit):
    """Runs all cases; returns a dict of totals and the list of (index, message)."""
    n = max(1, min(NPROC, len(cases)))
    chunk = max(1, min(64, len(cases) // (n * 20) or 1))
    counter = Counter()
    counter.buf[:8] = struct.pack("q", 0)
    slots = mmap.mmap(-1, 16 * (n + 1))
    limit = time.time() + time_limit
    import select
    sys.stdout.flush(), sys.stderr.flush()
    procs = {}
    tot = {"done": 0, "transitions": 0, "states": set(), "fails": [], "capped": False, "slowest": (0.0, -1), "extra": {}}

    def spawn(slot):
        r, w = os.pipe()
        slots[slot * 16:slot * 16 + 16] = struct.pack("qd", -1, 0.0)
        pid = os.fork()
        if pid == 0:
            os.close(r)
            if not os.environ.get("MC_VERBOSE"):
                null = os.open("/dev/null", os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
            try:
                _worker(mod, cases, counter, slot, slots, w, limit, chunk)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        procs[r] = [pid, slot, b""]

    for s in range(n):
        spawn(s)
    crashes = 0
    while procs:
        rd, _, _ = select.select(list(procs), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                procs[r][2] += b
                continue
            os.close(r)
            pid, slot, buf = procs.pop(r)
            _, st = os.waitpid(pid, 0)
            if buf and st == 0:
                d, t, s, f, c, slow, extra = pickle.loads(buf)
                for k, v in extra.items():
                    tot["extra"][k] = tot["extra"].get(k, 0) + v
                tot["done"] += d
                tot["transitions"] += t
                tot["states"] |= s
                tot["fails"] += f
                tot["capped"] |= c
                tot["slowest"] = max(tot["slowest"], slow)
            else:
                i, _ = struct.unpack("qd", slots[slot * 16:slot * 16 + 16])
                how = (f"crashed with signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exited with status {os.WEXITSTATUS(st)}")
                if i >= 0:
                    tot["fails"].append((i, how, 1e9, []))
                    counter.failed()
                else:
                    tot["fails"].append((-1, "worker " + how, 0, []))
                crashes += 1
                tot["capped"] = True       # the rest of the chunk of a crashed worker is not counted
                if crashes < 4:
                    spawn(slot)
                else:
                    with counter_lock(counter):         # enough crashed or hung: hand out no more cases
                        counter.buf[:8] = struct.pack("q", len(cases))
        now = time.time()
        for r, (pid, slot, _) in list(procs.items()):
            i, t = struct.unpack("qd", slots[slot * 16:slot * 16 + 16])
            if i >= 0 and t and now - t > getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT):
                os.kill(pid, signal.SIGKILL)
    return tot


def evidence(prop, level, coverage, assumptions, wall, violations):
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps({
        "property": prop, "tier": tier() if tier() in ("quick", "thorough") else "quick", "seed": seed(),
        "level": level, "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2),
        "violations": violations}, indent=1) + "\n")


def write_replay(prop, n, payload):
    REPLAYS.mkdir(exist_ok=True)
    f = REPLAYS / f"{prop}-{n}.json"
    f.write_text(json.dumps(payload, indent=1) + "\n")
    return f


def report(prop, confirmed, key_of):
    """confirmed: list of (case, msg). Prints KNOWN-FINDING / VIOLATION lines; returns number of new violations."""
    known = known_findings(prop)
    new, seen_known, printed = 0, set(), 0
    for case, msg, before in confirmed:
        key = key_of(case, msg)
        hit = next((e for e in known if e["key"] == key), None)
        if hit:
            seen_known.add(hit["key"])
            continue
        new += 1
        if printed < 10:
            printed += 1
            f = write_replay(prop, printed, {"property": prop, "case": case, "before": before, "message": msg, "key": key,
                                             "replay": f"python3 bin/check {prop} --replay replays/{prop}-{printed}.json"})
            print(f"VIOLATION property={prop} replay={f}")
            print("   " + msg.replace("\n", "\n   ")[:1500])
    for e in known:
        if e["key"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    return new


def main(mod, argv):
    prop = mod.PROPERTY
    t0 = time.time()
    if "--replay" in argv:
        replay = json.loads(pathlib.Path(argv[argv.index("--replay") + 1]).read_text())
        case = replay["case"]
        if hasattr(mod, "setup"):
            mod.setup()
        msg = run_alone(mod, case, 300, replay.get("before", ()))
        print(json.dumps(case))
        print("FAILS: " + msg if msg else "does not fail")
        return 1 if msg else 0
    if hasattr(mod, "setup"):
        mod.setup()
    cases = list(mod.cases(tier()))
    limit = getattr(mod, "TIME_LIMIT", {"quick": 450, "thorough": 3600})[tier() if tier() in ("quick", "thorough") else "quick"]
    tot = explore(mod, cases, limit)
    key_of = finding_key(mod)
    known = {e["key"] for e in known_findings(prop)}
    confirmed, t_confirm, fresh = [], time.time(), 0
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)
    histories = 0
    for i, msg, took, ran in sorted(tot["fails"], key=lambda f: (f[2], f[0])):    # the fast ones first
        if i < 0:
            raise RuntimeError(msg)
        spent = time.time() - t_confirm
        if fresh >= 10 or (fresh and spent > FAIL_GRACE) or spent > CONFIRM_LIMIT:
            break
        if key_of(cases[i], msg) in known and any(key_of(c, m) == key_of(cases[i], msg) for c, m, _ in confirmed):
            continue
        again = run_alone(mod, cases[i], max(20, min(timeout * 1.5, t0 + DEADLINE - time.time())))    # replay before report
        before = []
        if again is None and not fresh and histories < 3:
            histories += 1
            found = with_history(mod, cases, i, ran, CONFIRM_LIMIT / 2, min(t0 + DEADLINE, time.time() + CONFIRM_LIMIT / 2))
            if found:
                before, again = found
        if again is None:
            print(f"note: case {i} failed once but not on replay: {msg}", file=sys.stderr)
            continue
        confirmed.append((cases[i], again, before))
        fresh += key_of(cases[i], again) not in known
    new = report(prop, confirmed, key_of)
    samples = []
    for k in (0, len(cases) // 2, len(cases) - 1):
        if cases:
            samples.append(cases[k])
    cov = {"states": len(tot["states"]), "transitions": tot["transitions"],
           "traces_validated_against_impl": tot["done"], "samples": samples,
           "cases_in_bounded_space": len(cases), "exhaustive": tot["done"] == len(cases) and not tot["capped"],
           "bounds": mod.BOUNDS[tier()] if isinstance(getattr(mod, "BOUNDS", None), dict) else getattr(mod, "BOUNDS", "")}
    cov.update(tot["extra"])
    if tot["extra"].get("not_exhausted"):
        cov["exhaustive"] = False
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage())
    evidence(prop, "model_checking", cov, getattr(mod, "ASSUMPTIONS", []), time.time() - t0, new)
    print(f"{prop}: {tot['done']}/{len(cases)} cases, {tot['transitions']} transitions, {len(tot['states'])} distinct states, "
          f"{new} violations, {tot['extra'] or ''} {time.time() - t0:.1f} s (slowest case {tot['slowest'][0]:.1f} s)")
    if new:
        return 1
    if tot["done"] != len(cases):
        # nothing failed, but the space was not covered (time limit): say so; still no violation
        print(f"note: {prop} stopped at the time limit; {tot['done']} of {len(cases)} cases explored", file=sys.stderr)
    return 0
