#!/usr/bin/env python3
"""seedcheck.py [-n] ID...: confirms planted bugs in a scratch worktree and runs the check of their property.
-n: without the check. Works in /tmp/sr (worktree of /repo) and /tmp/vc (copy of /verif)."""
import json, os, pathlib, shutil, subprocess, sys, time
SR, VC, SEEDED = pathlib.Path("/tmp/sr"), pathlib.Path("/tmp/vc"), pathlib.Path("/verif/seeded")
PY = "/opt/stempy-venv/bin/python"
STABLE = ["test_com_sparse_parameters[0]", "test_com_sparse_parameters[1]", "test_radial_sum_sparse", "test_simple", "test_multiple_frames_per_scan_position"]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def prepare():
    if not SR.exists():
        r = sh(f"git -C /repo worktree prune; git -C /repo worktree add --detach {SR} HEAD")
        assert r.returncode == 0, r.stderr
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {SR} checkout -q -f --detach {head} && git -C {SR} checkout -- .")
    if not (SR / "_build/build.ninja").exists():
        r = sh(f"CC=gcc CXX=g++ cmake -S {SR} -B {SR}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_PROJECT_stempy_INCLUDE=/opt/vp/pybind11_from_apt.cmake -DPython3_EXECUTABLE={PY} -Dstempy_ENABLE_HDF5=ON -Dstempy_ENABLE_MPI=OFF -Dstempy_ENABLE_VTKm=OFF")
        assert r.returncode == 0, r.stderr
    sh(f"mkdir -p {VC} && rsync -a --delete --exclude .build --exclude .git --exclude evidence --exclude replays --exclude seeded /verif/ {VC}/ || (cd /verif && tar cf - --exclude=.build --exclude=.git --exclude=evidence --exclude=replays --exclude=seeded . | tar xf - -C {VC})")


def demo(d, cwd):
    t = time.time()
    r = sh(["timeout", "300", "bash", str(d / "demo.sh")], cwd=cwd)
    return r.returncode, time.time() - t, (r.stdout + r.stderr)[-300:]


def one(seed, check=True, thorough=False):
    d = SEEDED / seed
    prop = json.loads((d / "meta.json").read_text())["property"]
    print(f"== {seed} ({prop})", flush=True)
    c = demo(d, "/repo")
    print(f"   demo unchanged: {c[0]} ({c[1]:.1f} s)" + ("" if c[0] == 0 else f"  BAD {c[2]}"), flush=True)
    sh(f"git -C {SR} checkout -- .")
    r = sh(f"git -C {SR} apply {d}/patch.diff")
    if r.returncode:
        print("   BAD patch:", r.stderr)
        return
    try:
        r = sh(f"ninja -C {SR}/_build", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode:
            print("   BAD build:", r.stdout[-1500:])
            return
        r = sh([PY, "-m", "pytest", "tests", "-p", "no:cacheprovider", "-q", "-rA", "--tb=no"], cwd=SR, env=dict(os.environ, PYTHONPATH=f"{SR}/_build/lib", PYTHONDONTWRITEBYTECODE="1"))
        missing = [t for t in STABLE if not any(l.startswith("PASSED") and l.split()[1].endswith("::" + t) for l in r.stdout.splitlines())]
        print("   stable tests:", "pass" if not missing else f"BAD {missing}", flush=True)
        c = demo(d, SR)
        print(f"   demo patched: {c[0]} ({c[1]:.1f} s)" + ("  BAD" if c[0] == 0 else "") + " " + c[2].strip().splitlines()[-1][:150] if c[2].strip() else f"   demo patched: {c[0]}", flush=True)
        if check:
            t = time.time()
            r = sh(["python3", "bin/check", prop], cwd=VC, env=dict(os.environ, MC_REPO=str(SR), **({"VERIF_TIER": "thorough"} if thorough else {})))
            hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            msg = [l for l in r.stdout.splitlines() if l.startswith("   ")]
            print(f"   check: exit {r.returncode} ({time.time() - t:.0f} s), {'CAUGHT' if r.returncode == 1 and hit else 'MISSED'} {msg[0][:200] if msg else r.stdout[-200:] + r.stderr[-300:]}", flush=True)
    finally:
        sh(f"git -C {SR} checkout -- .")


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prepare()
    for s in args or sorted(p.name for p in SEEDED.iterdir()):
        one(s, "-n" not in sys.argv, "-t" in sys.argv)
