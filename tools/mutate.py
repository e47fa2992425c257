#!/usr/bin/env python3
"""Systematic small mutations of the code under test; reports those that no check notices.

  mutate.py WORKER WORKERS OUT [FILE...]   (runs in a scratch copy of /verif and /repo below /tmp)
"""
import json
import os
import re
import shutil
import subprocess
import sys

W, N, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
FILES = sys.argv[4:] or [
    "core/src/verify.rs", "core/src/attestation.rs", "core/src/committee_cache.rs", "core/src/consensus_state.rs",
    "core/src/input_reader.rs", "core/src/input_reader/guest_input_reader.rs", "core/src/state_patch.rs",
    "core/src/lib.rs", "core/src/abi.rs", "core/src/bls.rs", "core/src/config.rs", "core/src/serde_utils.rs",
    "core/src/guest_gindices.rs", "ssz-multiproofs/src/multiproof.rs", "methods/guest/src/lib.rs",
    "methods/guest/src/bin/mainnet.rs", "methods/guest/src/bin/sepolia.rs", "chainspec/src/lib.rs",
]
base = f"/tmp/mut-{W}"
verif, repo = f"{base}/verif", f"{base}/repo"
if not os.path.exists(verif):
    os.makedirs(base, exist_ok=True)
    shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns(".git", ".target", "seeded", "replay", "evidence"))
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "target"))

RULES = [
    (r" <= ", [" < ", " >= "]), (r" < ", [" <= "]), (r" >= ", [" > ", " <= "]), (r" > ", [" >= "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ 1\b", [" + 0", " + 2"]), (r" - 1\b", [" - 0", " - 2"]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"\.safe_add\(", [".safe_sub("]), (r"\.safe_sub\(", [".safe_add("]), (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.all\(", [".any("]), (r"\.any\(", [".all("]),
    (r"if !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"\.\.=", [".."]), (r"(?<![.\w])(\d+)\.\.(\d+)", None),
    (r"(?<![\w.\"x])(\d+)(u64|usize)?(?![\w.\"])", None), (r"\.saturating_sub\(", [".wrapping_sub(", ".saturating_add("]),
    (r"source\b(?!:)", ["target"]), (r"target\b(?!:)", ["source"]), (r"finalized_checkpoint\(\)", ["current_justified_checkpoint()"]),
    (r"current_justified_checkpoint\(\)", ["finalized_checkpoint()"]), (r"\.epoch\(\)", [".epoch() + 1"]),
]
STMT = re.compile(r"^\s*(ensure!|assert!|assert_eq!|debug_assert!)\(")


def code_part(text):
    i = text.find("#[cfg(test)]\nmod tests")
    return text if i < 0 else text[:i]


def mutants(path):
    text = open(f"/repo/{path}").read()
    body = code_part(text)
    lines = body.split("\n")
    pos = 0
    hook = False
    for n, line in enumerate(lines):
        start = pos
        pos += len(line) + 1
        if "cfg(signal_verif)" in line:
            hook = True
        if hook:
            if line.startswith("}"):
                hook = False
            continue
        s = line.strip()
        if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or "debug!" in s or "trace!" in s or "info!" in s:
            continue
        if STMT.match(line):
            # remove the whole statement
            depth, j = 0, start
            while True:
                c = text[j]
                depth += c == "("
                depth -= c == ")"
                j += 1
                if c == ")" and depth == 0:
                    break
            j += text[j] == ";"
            yield n + 1, "delete " + s, text[:start] + text[j:]
        elif re.match(r"^\s*[\w.]+( [+-]?=|\.\w+\().*;$", line) and not s.startswith("let") and not s.startswith("return"):
            yield n + 1, "delete " + s, text[:start] + text[start + len(line):]
        elif re.match(r"^\s*\.\w+\(.*\)\??$", line) and line.count("(") == line.count(")"):
            yield n + 1, "drop " + s, text[:start] + text[start + len(line):]
        cut = line.find("//")
        for rx, reps in RULES:
            for m in re.finditer(rx, line):
                if 0 <= cut <= m.start():
                    continue
                if reps is None:
                    if m.lastindex and m.re.groups >= 2 and ".." in m.group(0):
                        continue
                    v = int(m.group(1))
                    suf = m.group(2) or ""
                    new = [f"{v + 1}{suf}"] + ([f"{v - 1}{suf}"] if v else [])
                else:
                    new = reps
                for r in new:
                    out = line[:m.start()] + r + line[m.end():]
                    yield n + 1, f"{s}  =>  {out.strip()}", text[:start] + out + text[start + len(line):]


CHECKS = json.load(open(f"{verif}/checks.json"))
ORDER = {
    "ssz-multiproofs": ["C10", "C11", "C09", "C12", "C13"],
    "core": ["C01", "C08", "C07", "C17", "C04", "C05", "C06", "C02", "C03", "C14", "C15", "C16", "C18", "C19", "C24"],
    "methods": ["C24"], "chainspec": ["C24"],
    "host": ["C20", "C21", "C22", "C23"],
}
BY_FILE = {
    "builder.rs": ["C13"], "cache_provider.rs": ["C33", "C22", "C20"], "persistant_api_provider.rs": ["C22"], "file_provider.rs": ["C22"],
    "conversions.rs": ["C33", "C20", "C21", "C25"], "chain_reader.rs": ["C21", "C26"], "host_input_reader.rs": ["C33", "C21", "C20", "C26"],
    "preflight_input_reader.rs": ["C34", "C20"], "assert_input_reader.rs": ["C28"], "beacon_client.rs": ["C29", "C25", "C21"],
    "state_provider.rs": ["C23", "C33", "C20", "C26"], "beacon_state.rs": ["C25", "C20"], "state_patch_builder.rs": ["C34", "C20"],
    "gen_gindices.rs": ["C30"], "zkasper_cli.rs": ["C26"],
}
HOST = [
    "ssz-multiproofs/src/builder.rs", "host/src/state_provider/cache_provider.rs", "host/src/state_provider/persistant_api_provider.rs",
    "host/src/state_provider/file_provider.rs", "host/src/conversions.rs", "host/src/chain_reader.rs",
    "host/src/input_reader/host_input_reader.rs", "host/src/input_reader/preflight_input_reader.rs",
    "host/src/input_reader/assert_input_reader.rs", "host/src/beacon_client.rs", "host/src/state_provider.rs", "host/src/beacon_state.rs",
    "host/src/state_patch_builder.rs", "host/src/bin/gen_gindices.rs", "host/src/bin/zkasper_cli.rs",
]
if FILES == ["HOST"]:
    FILES = HOST
env = dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED="1", RAYON_NUM_THREADS="3", CARGO_BUILD_JOBS="3")
env.pop("VERIF_TARGET", None)
k = 0
with open(OUT, "a") as out:
    for path in FILES:
        orig = open(f"/repo/{path}").read()
        order = [c for c in ORDER[path.split("/")[0]] if c in CHECKS]
        if "guest_input_reader" in path or "state_patch" in path or "guest_gindices" in path:
            order = ["C19", "C14", "C15", "C16", "C24", "C18"]
        order = BY_FILE.get(os.path.basename(path), order)
        for line, what, text in mutants(path):
            k += 1
            if k % N != W:
                continue
            open(f"{repo}/{path}", "w").write(text)
            res = "SURVIVED"
            for c in order:
                try:
                    r = subprocess.run(["python3", f"{verif}/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                    code = r.returncode
                except subprocess.TimeoutExpired:
                    res = f"timeout {c}"
                    break
                if code == 1:
                    res = f"caught {c}"
                    break
                if code != 0:
                    res = "no build" if "does not build" in r.stdout else f"odd {c} {code}"
                    break
            out.write(f"{res}\t{path}:{line}\t{what}\n")
            out.flush()
        open(f"{repo}/{path}", "w").write(orig)
