#!/usr/bin/env python3
"""Runs one check: synchronises /repo's crates into shadow/, builds the harness, runs the property's exploration.

  check.py C09            run the check of C09 (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py C09 --thorough the same with the wide bounds
  check.py --setup        build everything once
  check.py --replay FILE  run only the space in which the recorded violation was found
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", f"{VERIF}/.target")

# property -> (binary, features)
BINS = json.load(open(f"{VERIF}/checks.json"))

# shadow crate -> list of (source below /repo, destination below the shadow crate)
SYNC = {
    "ssz-multiproofs": [("ssz-multiproofs/src", "src")],
    "z-core": [("core/src", "src")],
    "chainspec": [("chainspec/src", "src"), ("chainspec/configs", "configs")],
    "beacon_guest": [("methods/guest/src", "src")],
    "host": [("host/src", "src")],
}

# files that need lighthouse's beacon-chain test harness: present as empty modules
EMPTY = {"host": ("test_utils.rs", "input_reader/test_harness_readers.rs")}


def sync_dir(src, dst, empty=()):
    """Makes dst a copy of src; files whose content is the same keep their modification time."""
    want = set()
    for base, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", "fixtures")]
        rel = os.path.relpath(base, src)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            want.add(p)
            with open(os.path.join(base, f), "rb") as h:
                data = b"" if p in empty else h.read()
            out = os.path.join(dst, p)
            if os.path.exists(out):
                with open(out, "rb") as h:
                    if h.read() == data:
                        continue
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "wb") as h:
                h.write(data)
    for base, _, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.join(os.path.relpath(base, dst), f))
            if p not in want:
                os.remove(os.path.join(base, f))


def sync():
    for crate, pairs in SYNC.items():
        if not os.path.exists(f"{VERIF}/shadow/{crate}/Cargo.toml"):
            continue
        for src, dst in pairs:
            sync_dir(f"{REPO}/{src}", f"{VERIF}/shadow/{crate}/{dst}", EMPTY.get(crate, ()))


HOOKS = ["ssz-multiproofs/src/multiproof.rs", "z-core/src/verif_hooks.rs"]


def build(binary, features):
    """Builds with the hooks; if that fails, without: they name private items, which may have new names."""
    out = cargo(binary, features, "")
    if out is None:
        return True
    flags = ""
    for hook, flag in zip(HOOKS, (" --cfg verif_serde", " --cfg verif_nocore")):
        path = f"{VERIF}/shadow/{hook}"
        if os.path.exists(path):
            with open(path) as h:
                text = h.read()
            with open(path, "w") as h:
                h.write(text.replace("#[cfg(signal_verif)]", "#[cfg(any())]"))
        flags += flag
        if cargo(binary, features, flags) is None:
            print(f"built without {hook}")
            return True
    sys.stdout.write(out[-6000:])
    print(f"ERROR: the harness {binary} does not build against {REPO}")
    return False


def cargo(binary, features, flags):
    env = dict(os.environ)
    env.update(
        RUSTUP_TOOLCHAIN="1.88",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=TARGET,
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        RUSTFLAGS="--cfg signal_verif -A warnings" + flags,
        PATH="/root/.cargo/bin:" + env.get("PATH", ""),
    )
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", f"{VERIF}/harness/Cargo.toml",
           "--bin", binary]
    if features:
        cmd += ["--features", features]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if r.returncode == 0 else r.stdout


def run(prop, extra_env=None):
    binary, features = BINS[prop]
    t0 = time.time()
    sync()
    if not build(binary, features):
        return 2
    print(f"built {binary} in {time.time() - t0:.1f} s", flush=True)
    env = dict(os.environ, VERIF_DIR=VERIF, VERIF_REPO=REPO)
    env.setdefault("VERIF_TIER", "quick")
    env.setdefault("VERIF_SEED", "1")
    env.update(extra_env or {})
    scratch = f"/tmp/verif-scratch-{os.getpid()}"
    env["VERIF_SCRATCH"] = scratch
    try:
        r = subprocess.run([f"{TARGET}/release/{binary}", prop], env=env, cwd=VERIF, stderr=subprocess.PIPE, text=True,
                           errors="replace")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    code = r.returncode
    if code in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
        os.makedirs(f"{VERIF}/replay", exist_ok=True)
        path = f"{VERIF}/replay/{prop}-crash.json"
        with open(path, "w") as f:
            json.dump({"property": prop, "what": f"the process running the code under test died of signal {-code}"}, f)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    sys.stderr.write(r.stderr[-4000:])
    panics = [l for l in r.stderr.splitlines() if " panicked at " in l]
    if code == 101 and panics and "/shadow/" in panics[-1]:
        # the code under test panicked where it never should
        os.makedirs(f"{VERIF}/replay", exist_ok=True)
        path = f"{VERIF}/replay/{prop}-panic.json"
        with open(path, "w") as f:
            json.dump({"property": prop, "what": r.stderr[-4000:]}, f)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return code if code in (0, 1) else 2


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        sync()
        done = set()
        for b, f in BINS.values():
            if (b, f) not in done:
                done.add((b, f))
                if not build(b, f):
                    return 1
        return 0
    if len(args) == 2 and args[0] == "--replay":
        rec = json.load(open(args[1]))
        return run(rec["property"], {"VERIF_SPACE": rec.get("space", ""), "VERIF_TIER": rec.get("tier", "quick"),
                                     "VERIF_SEED": str(rec.get("seed", 1))})
    if len(args) == 2 and args[0] in BINS and args[1] == "--thorough":
        return run(args[0], {"VERIF_TIER": "thorough"})
    if len(args) == 1 and args[0] in BINS:
        return run(args[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
