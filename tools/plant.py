#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in tools/bugs/*.py, and tries planted bugs out.

  plant.py make ID...     write the folders (all if no ID is given)
  plant.py try ID...      apply each patch to /repo: build, stable tests, demonstration, the property's check; undo
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

VERIF = "/verif"
REPO = "/repo"

DEMO = r'''#!/bin/bash
# Builds the code of the current directory's tree with the small stand-ins beside this file and runs demo.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/signal-demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/support/." "$work/" || exit 2
for pair in ssz-multiproofs:ssz-multiproofs z-core:core chainspec:chainspec beacon_guest:methods/guest host:host; do
    to=$work/shadow/${pair%%:*}
    [ -d "$to" ] || continue
    cp -r "$repo/${pair#*:}/src" "$to/src" || exit 2
    if [ -d "$repo/${pair#*:}/configs" ]; then cp -r "$repo/${pair#*:}/configs" "$to/configs"; fi
done
# the parts of the host that need lighthouse's beacon-chain test harness
for f in test_utils.rs input_reader/test_harness_readers.rs; do
    if [ -e "$work/shadow/host/src/$f" ]; then : > "$work/shadow/host/src/$f"; fi
done
cp "$here/"*.rs "$work/harness/"
export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$work/target PATH=/root/.cargo/bin:$PATH
export RUSTFLAGS="--cfg signal_verif -A warnings" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cd "$work/harness"
cargo build --release --offline -q --bin demo FEATURES || exit 3
"$work/target/release/demo"
'''


def bugs():
    out = {}
    for f in sorted(glob.glob(f"{VERIF}/tools/bugs/*.py")):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out
            out[b["id"]] = b
    return out


def make(b):
    d = f"{VERIF}/seeded/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    # the patch
    wt = "/tmp/plant-wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["git", "-C", REPO, "worktree", "prune"], check=True)
    subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
    try:
        for path, old, new in b["edits"]:
            p = f"{wt}/{path}"
            text = open(p).read()
            assert text.count(old) == 1, (b["id"], path, old, text.count(old))
            open(p, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", wt], check=True)
    assert diff
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # the demonstration
    if "demo_sh" in b:
        open(f"{d}/demo.sh", "w").write(b["demo_sh"])
        for name, text in b.get("files", {}).items():
            open(f"{d}/{name}", "w").write(text)
        return
    features = b.get("features", "")
    crates = {"": ["ssz-multiproofs"], "core": ["ssz-multiproofs", "z-core", "chainspec"],
              "guest": ["ssz-multiproofs", "z-core", "chainspec", "beacon_guest"],
              "builder": ["ssz-multiproofs"],
              "host": ["ssz-multiproofs", "z-core", "chainspec", "beacon_guest", "host"],
              "gen": ["ssz-multiproofs", "z-core", "chainspec", "beacon_guest", "host"]}[features]
    s = f"{d}/support"
    for c in crates:
        os.makedirs(f"{s}/shadow/{c}")
        shutil.copy(f"{VERIF}/shadow/{c}/Cargo.toml", f"{s}/shadow/{c}/Cargo.toml")
    os.makedirs(f"{s}/harness/src")
    shutil.copytree(f"{VERIF}/shims", f"{s}/shims", ignore=shutil.ignore_patterns("target"))
    # cargo resolves optional path dependencies too: empty crates stand for those that are not needed
    for c in os.listdir(f"{VERIF}/shadow"):
        if not os.path.exists(f"{s}/shadow/{c}") and os.path.exists(f"{VERIF}/shadow/{c}/Cargo.toml"):
            os.makedirs(f"{s}/shadow/{c}/src")
            shutil.copy(f"{VERIF}/shadow/{c}/Cargo.toml", f"{s}/shadow/{c}/Cargo.toml")
            open(f"{s}/shadow/{c}/src/lib.rs", "w").write("")
    toml = open(f"{VERIF}/harness/Cargo.toml").read()
    head, rest = toml.split("[[bin]]", 1)
    profile = rest[rest.index("[profile.release]"):]
    open(f"{s}/harness/Cargo.toml", "w").write(head + '[[bin]]\nname = "demo"\npath = "demo.rs"\n\n' + profile)
    shutil.copy(f"{VERIF}/harness/Cargo.lock", f"{s}/harness/Cargo.lock")
    for f in os.listdir(f"{VERIF}/harness/src"):
        if f.endswith(".rs"):
            shutil.copy(f"{VERIF}/harness/src/{f}", f"{s}/harness/src/{f}")
    for m in b.get("mods", []):
        shutil.copy(f"{VERIF}/harness/src/bin/{m}", f"{d}/{os.path.basename(m)}")
    open(f"{d}/demo.rs", "w").write(b["demo"])
    open(f"{d}/demo.sh", "w").write(DEMO.replace("FEATURES", f"--features {features}" if features else ""))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def attempt(b):
    d = f"{VERIF}/seeded/{b['id']}"
    tmp = f"/tmp/plant-demo-{b['id']}"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    for f in ("patch.diff", "meta.json"):
        os.remove(f"{tmp}/{f}")
    clean = sh(f"bash {tmp}/demo.sh", cwd=REPO)
    res = {"demo_clean": clean.returncode}
    if clean.returncode:
        print(clean.stdout[-3000:])
    r = sh(f"git -C {REPO} apply {d}/patch.diff")
    if r.returncode:
        print(b["id"], "does not apply", r.stdout)
        return
    try:
        build = sh("bash /opt/vp/build.sh")
        res["build"] = build.returncode
        out = f"/tmp/plant-{b['id']}.json"
        sh(f"bash /opt/vp/test.sh {out}")
        t = json.load(open(out))
        os.remove(out)
        res["tests"] = "ok" if not t.get("failed") and not t.get("fail") else str(t)[:300]
        bad = sh(f"bash {tmp}/demo.sh", cwd=REPO)
        res["demo_bad"] = bad.returncode
        if bad.returncode in (0, 2, 3):
            print(bad.stdout[-3000:])
        check = sh(f"python3 {VERIF}/check.py {b['property']}", env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
        res["check"] = check.returncode
        v = [l for l in check.stdout.splitlines() if "VIOLATION" in l]
        res["caught"] = check.returncode == 1 and any(f"property={b['property']} " in l for l in v)
        if not res["caught"]:
            print(check.stdout[-1500:])
    finally:
        sh(f"git -C {REPO} checkout -- .")
        shutil.rmtree(tmp, ignore_errors=True)
    print(b["id"], b["property"], res, flush=True)


def main():
    all_bugs = bugs()
    ids = sys.argv[2:] or list(all_bugs)
    for i in ids:
        (make if sys.argv[1] == "make" else attempt)(all_bugs[i])


main()
