"""Checks the scheduler, the race detector and the explorer on small programs with known behaviour."""
import subprocess, sys
from mc import build

# program: (bound, what has to be in the output)
EXPECTED = {
    "racy": (1, "data race"), "locked": (3, "OUTCOMES [2]"), "globalRace": (1, "static variable"), "globalLocked": (3, "OUTCOMES [2]"),
    "lostUpdate": (1, "OUTCOMES [1] [2]"), "relaxedPublish": (2, "data race"), "publish": (3, "OUTCOMES [1]"), "lockOrder": (2, "deadlock"),
    "lostWakeup": (2, "deadlock"), "goodWakeup": (3, "OUTCOMES [ok]"), "timedWait": (2, "OUTCOMES [ok]"), "useAfterFree": (2, "use after free"),
    "outOfBounds": (1, "out of bounds"), "spin": (3, "OUTCOMES [ok]"), "spinForever": (1, "livelock"), "staticGuard": (2, "OUTCOMES [84]"),
    "sharedLock": (3, "OUTCOMES [ok]"), "sharedLockRace": (1, "data race"), "recursive": (2, "OUTCOMES [2]"), "relock": (1, "locked again"),
    "future": (2, "OUTCOMES [11]"), "exceptions": (2, "OUTCOMES [error 0 error 1]"), "escaped": (2, "OUTCOMES [x]"), "sharedPtr": (3, "OUTCOMES [ok]"),
    "mapRace": (1, "data race"), "stackRace": (1, "data race"), "callOnce": (2, "OUTCOMES [1]"), "detachedWaiter": (2, "OUTCOMES [ok]"),
    "threeSum": (3, "OUTCOMES [1] [2] [3] [4] [5] [6] [7]"),
}


def main():
    d = build.BUILD / "bin"
    d.mkdir(parents=True, exist_ok=True)
    exe = d / "selftest"
    cpp = build.VERIF / "cpp"
    common = ["g++", "-std=c++17", "-O1", "-g1", "-w"]
    build._run(common + ["-fsanitize=thread", "-include", str(cpp / "sched_prelude.h"), "-c", str(cpp / "selftest.cpp"), "-o", f"{exe}.o"])
    build._run(common + ["-O2", "-fno-threadsafe-statics", "-c", str(cpp / "sched_rt.cpp"), "-o", f"{exe}_rt.o"])
    build._run(["g++", f"{exe}.o", f"{exe}_rt.o", "-o", str(exe), "-rdynamic", "-lpthread", "-ldl"])
    bad = 0
    for name, (bound, want) in EXPECTED.items():
        r = subprocess.run([str(exe), name, str(bound)], capture_output=True, text=True, timeout=120)
        if want not in r.stdout:
            bad += 1
            print(f"selftest {name}: expected {want!r}, got (status {r.returncode})\n{r.stdout[:1500]}{r.stderr[:500]}")
    print(f"selftest: {len(EXPECTED)} programs, {bad} wrong")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
