#!/usr/bin/env python3
"""Turn a spec of a planted bug into /verif/seeded/<id>/, confirming it first.

usage: seed.py SPEC.py...        (SPEC defines PROP, NEEDS, BREAKS, EDITS, DEMO)

In a scratch copy of /repo: apply EDITS, check that every removed line is an original one,
that the stable tests pass, that the demonstration succeeds without and fails with the change.
Nothing here is used by a check.
"""
import json, os, re, runpy, shutil, subprocess, sys

BASE = "e10d062"
WT = "/tmp/wt"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", DEMO_TARGET="/tmp/demo_target")

DEMO_SH = """#!/bin/bash
# Builds the program beside this file against the crate in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cargo build --offline -q || exit 2
exec_target="$CARGO_TARGET_DIR/debug/demo"
timeout 120 "$exec_target"
"""
CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
wot-td = { path = "@REPO@" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
time = { version = "0.3", features = ["macros"] }
"""

def run(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, text=True, capture_output=True, timeout=timeout)

def names(log):
    log = re.sub(r"^(test \S+\.rs - [^\n]*,)\n(?!test )([^\n]* \(line \d+\))", r"\1\2", log, flags=re.M)
    return set(re.findall(r"^test (.*?) \.\.\. FAILED", log, flags=re.M)), len(re.findall(r"\.\.\. ok$", log, flags=re.M))

def one(spec):
    s = runpy.run_path(spec)
    sid = os.path.basename(spec)[:-3]
    out = f"/verif/seeded/{sid}"
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", WT + "/"], check=True)
    for f, old, new in s["EDITS"]:
        p = f"{WT}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            return f"{sid}: edit of {f} matches {t.count(old)} times: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    patch = run(["git", "diff"], WT).stdout
    # removed lines must be original ones
    removed = 0
    for f in sorted({e[0] for e in s["EDITS"]}):
        d = run(["git", "diff", "-U0", f], WT).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, flags=re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for l in range(a, a + n):
                b = run(["git", "blame", "-l", "-s", "-L", f"{l},{l}", "HEAD", "--", f], WT).stdout
                sha = b.split()[0].lstrip("^")
                removed += 1
                if run(["git", "merge-base", "--is-ancestor", sha, BASE], WT).returncode != 0:
                    return f"{sid}: line {f}:{l} is not original ({sha[:8]})"
    if removed == 0:
        print(f"{sid}: note: only adds lines")
    r = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], WT)
    failed, ok = names(r.stdout)
    if failed or ok < 233:
        return f"{sid}: tests: {ok} ok, failed {sorted(failed)} {r.stderr[-1500:] if ok == 0 else ''}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(patch)
    open(f"{out}/main.rs", "w").write(s["DEMO"].lstrip("\n"))
    open(f"{out}/Cargo.toml.in", "w").write(CARGO)
    open(f"{out}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(f"{out}/meta.json", "w"), indent=1)
    bad = run(["bash", f"{out}/demo.sh"], WT)
    good = run(["bash", f"{out}/demo.sh"], "/repo")
    if good.returncode != 0 or bad.returncode == 0 or bad.returncode == 2:
        shutil.move(out, f"/tmp/seed-bad-{sid}-{os.getpid()}")
        return f"{sid}: demo clean={good.returncode} patched={bad.returncode}\n{good.stderr[-1500:]}\n--\n{bad.stderr[-800:]}"
    return f"{sid}: kept ({ok} tests ok; demo: {bad.stderr.strip().splitlines()[-1][:160] if bad.stderr.strip() else bad.returncode})"

for spec in sys.argv[1:]:
    print(one(spec), flush=True)
