#!/usr/bin/env python3
"""Mutation campaign against the checks. Works on copies only (default /tmp/mut).

usage: mutate.py COUNT SEED [FILE-SUBSTRING]

Draws textual mutants of the non-test lines of /repo/src, keeps those that compile and pass the crate's own tests, and
runs the quick checks of a copy of the harness on them until one reports a violation. Appends one JSON line per mutant to
DIR/log.jsonl: {"file", "line", "op", "old", "new", "result": "build|tests|caught|SURVIVED", "by": ...}.
"""
import json, os, random, re, subprocess, sys

DIR = os.environ.get("MUT_DIR", "/tmp/mut")
COUNT, SEED = int(sys.argv[1]), int(sys.argv[2])
ONLY = sys.argv[3] if len(sys.argv) > 3 else ""
REPO, HARN, OUT = f"{DIR}/repo", f"{DIR}/harness", f"{DIR}/hv"
FILES = ["src/thing.rs", "src/builder.rs", "src/builder/affordance.rs", "src/builder/data_schema.rs",
         "src/builder/human_readable_info.rs", "src/hlist.rs", "src/extend.rs", "src/protocol/coap.rs",
         "src/protocol/http.rs", "src/protocol/mqtt.rs"]
ORDER = {
    "src/thing.rs": "P14 P12 P10 P01 P02 P13 P03 P18 P16 P11 P04 P19 P05 P09 P08 P06 P17 P07 P15",
    "src/builder.rs": "P05 P08 P04 P10 P06 P09 P19 P11 P17 P07 P15 P02 P03 P01 P13 P16 P18 P12 P14",
    "src/builder/affordance.rs": "P08 P04 P05 P09 P06 P11 P17 P07 P19 P15 P02 P03 P01 P13 P16 P18 P10 P12 P14",
    "src/builder/data_schema.rs": "P08 P04 P17 P11 P07 P09 P05 P06 P19 P15 P02 P03 P01 P13 P16 P18 P10 P12 P14",
}
DEFAULT_ORDER = "P12 P11 P04 P02 P01 P17 P03 P09 P08 P05 P06 P07 P10 P13 P14 P15 P16 P18 P19"

def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def code_lines(path):
    """(index, line) of the lines before the test module that are neither comments nor blank."""
    out, lines = [], open(path).read().split("\n")
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l and not l.startswith("    "):
            break
        t = l.strip()
        if t and not t.startswith("//"):
            out.append((i, l))
    return lines, out

def ops(lines, i, l):
    """All the mutants of a line: (operator, new line or None to delete it)."""
    t, r = l.strip(), []
    ind = l[: len(l) - len(l.lstrip())]
    if t.startswith("#[serde") or t.startswith("#[skip_serializing_none") :
        if t.endswith("]"):
            r.append(("del-attr", None))
            inner = re.match(r"#\[serde\((.*)\)\]$", t)
            if inner and "," in inner.group(1) and "bound" not in t:
                parts = [p.strip() for p in inner.group(1).split(",")]
                for k in range(len(parts)):
                    r.append(("del-attr-part", ind + "#[serde(" + ", ".join(parts[:k] + parts[k+1:]) + ")]"))
        for m in re.finditer(r'"([A-Za-z@-]+)"', t):
            if "rename" in t[:m.start()] and m.group(1) not in ("camelCase", "lowercase", "kebab-case"):
                w = m.group(1)
                r.append(("respell", l.replace(f'"{w}"', f'"{w[:-1]}"')))
        if "OneOrMany<_>" in t:
            r.append(("no-one-or-many", l.replace("OneOrMany<_>", "_")))
    if re.match(r"^[a-z_\.]+(\.[a-z_]+)*\s*=\s*.+;$", t) or re.match(r"^(self|builder)\b.*;$", t):
        r.append(("del-stmt", None))
    if re.match(r"^[a-z_]+,$", t) :
        w = t[:-1]
        r.append(("default-field", f"{ind}{w}: Default::default(),"))
    m = re.match(r"^([a-z_]+): ([a-z_\.]+),$", t)
    if m:
        r.append(("default-field", f"{ind}{m.group(1)}: Default::default(),"))
    if t.startswith("&& ") or t.startswith("|| ") or t.startswith("| "):
        r.append(("del-clause", None if not t.endswith(";") else ";"))
    for a, b in [("&&", "||"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "),
                 (" >= ", " > "), (" < ", " > "), ("true", "false"), ("false", "true"), (".is_some()", ".is_none()"),
                 (".is_empty()", ".is_empty().not()"), (".not()", ""), ("Inclusive", "Exclusive"),
                 ("Exclusive", "Inclusive"), ("Less", "Greater"), ("Greater", "Less"), ("Less | Ordering::Equal", "Less"),
                 ("Equal | Ordering::Greater", "Greater"), (".any(", ".all("), (".all(", ".any("), ("?;", ".ok();"),
                 ("Some(value.into())", "None"), ("or_insert_with", "insert_with"), (".push(", ".insert(0, "),
                 (".flatten()", ".flatten().skip(1)"), (".iter()", ".iter().skip(1)"), (".iter()", ".iter().rev()"),
                 (".iter()", ".iter().take(1)"), (".values()", ".values().skip(1)"), (".into_iter()", ".into_iter().take(1)"),
                 (".into_iter()", ".into_iter().skip(1)"), ("self.tail", "self.head"), ("i32", "u32"), ("u32", "u16"),
                 ("i64", "i32"), ("f64", "f32"), ("u16", "u8"), ("read_only", "write_only"), ("write_only", "read_only"),
                 ("minimum", "maximum"), ("maximum", "minimum"), ("min_", "max_"), ("max_", "min_"), ("input", "output"),
                 ("output", "input"), ("titles", "descriptions"), ("title", "description"), ("description", "title"),
                 ("subscription", "cancellation"), ("data_response", "data"), ("content_type", "content_coding"),
                 ("content_coding", "subprotocol"), ("authorization", "token"), ("token", "refresh"), ("proxy", "description"),
                 ("Property", "Action"), ("Action", "Event"), ("created", "modified"), ("support", "base"),
                 ("safe", "idempotent"), ("Header", "Query"), ("anchor", "rel"), ("OneOf", "AllOf"), ("identity", "pattern"),
                 ("number()", "integer()"), ("::Number", "::Integer"), ("head", "tail"), ("NoSec", "Auto")]:
        for m in re.finditer(re.escape(a), l):
            if a[0].isalpha() and m.start() and (l[m.start()-1].isalnum()):
                continue
            r.append((f"{a.strip()}->{b.strip()}", l[:m.start()] + b + l[m.end():]))
    m = re.search(r"\b(\d+)\b", t)
    if m and not t.startswith("#[doc"):
        n = int(m.group(1))
        if n < 100000:
            r.append(("number", re.sub(rf"\b{n}\b", str(n + 1), l, count=1)))
    return [(o, n) for o, n in r if n != l]

def main():
    os.makedirs(DIR, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    for d, s in ((REPO, "/repo/"), (HARN, "/verif/harness/")):
        subprocess.run(["rsync", "-a", "--checksum", "--no-times", "--delete", "--exclude", "target", "--exclude", ".git", "--exclude", "Cargo.toml" if d == HARN else ".nothing", s, d + "/"], check=True)
    for sub in ("", "base/", "driver/"):
        toml = open(f"/verif/harness/{sub}Cargo.toml").read().replace('path = "/repo"', f'path = "{REPO}"')
        dst = f"{HARN}/{sub}Cargo.toml"
        if not os.path.exists(dst) or open(dst).read() != toml:
            open(dst, "w").write(toml)
    subprocess.run(["cp", "/verif/known_findings.txt", OUT])
    done = set()
    log = f"{DIR}/log.jsonl"
    if os.path.exists(log):
        for x in open(log):
            x = json.loads(x)
            done.add((x["file"], x["line"], x["new"]))
    cands = []
    for f in FILES:
        if ONLY and ONLY not in f:
            continue
        lines, code = code_lines(f"/repo/{f}")
        fmt_debug = False
        for i, l in code:
            if ".field(\"" in l or "debug_struct" in l:
                continue
            for o, n in ops(lines, i, l):
                cands.append((f, i, o, l, n))
    rng = random.Random(SEED)
    rng.shuffle(cands)
    # even out: pick round-robin over (file, operator)
    groups = {}
    for c in cands:
        groups.setdefault((c[0], c[2]), []).append(c)
    keys = sorted(groups)
    rng.shuffle(keys)
    picked = []
    while len(picked) < COUNT and any(groups.values()):
        for k in keys:
            if groups[k]:
                c = groups[k].pop()
                if (c[0], c[1] + 1, c[4]) not in done:
                    picked.append(c)
    print(f"{len(cands)} candidates, {len(picked)} picked", flush=True)
    stats = {}
    for f, i, o, old, new in picked[:COUNT]:
        path = f"{REPO}/{f}"
        orig = open(f"/repo/{f}").read()
        lines = orig.split("\n")
        if new is None:
            del lines[i]
        else:
            lines[i] = new
        open(path, "w").write("\n".join(lines))
        res = {"file": f, "line": i + 1, "op": o, "old": old.strip(), "new": new, "result": None, "by": None}
        env = "export CARGO_NET_OFFLINE=true; "
        rc, _ = sh(env + "cargo check --offline -q", REPO)
        if rc:
            res["result"] = "build"
        else:
            rc, out = sh(env + "timeout 300 cargo test --offline --lib -- --test-threads 8", REPO)
            if not rc:
                rc, out = sh(env + "timeout 300 cargo test --offline --workspace -- --test-threads 8", REPO)
            if rc:
                res["result"] = "tests"
            else:
                rc, out = sh(env + "cargo build --offline -q", HARN)
                if rc:
                    res["result"], res["by"] = "harness-build", out[-300:]
                else:
                    res["result"] = "SURVIVED"
                    for p in ORDER.get(f, DEFAULT_ORDER).split():
                        rc, out = sh(f"timeout 600 {HARN}/target/debug/harness check {p} quick 1 {OUT}", HARN)
                        if rc == 1 and "VIOLATION" in out:
                            m = re.search(r"^  \[.*", out, re.M)
                            res["result"], res["by"] = "caught", f"{p} {m.group(0)[:160] if m else ''}"
                            break
                        if rc != 0:
                            res["by"] = (res["by"] or "") + f"{p}:rc{rc} "
        open(path, "w").write(orig)
        stats[res["result"]] = stats.get(res["result"], 0) + 1
        with open(log, "a") as h:
            h.write(json.dumps(res) + "\n")
        print(stats, res["result"], f, i + 1, o, "|", old.strip()[:60], "=>", (new or "").strip()[:60], "|", res["by"], flush=True)

main()
