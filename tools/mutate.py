#!/usr/bin/env python3
"""Mutation run: which small edits of the repository pass its tests, and which checks notice them.

usage: mutate.py WORKDIR RESULTS.jsonl [FILE-REGEX]
Works on clones in WORKDIR only; resumes from RESULTS.jsonl.
"""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "src/nibbles.rs": "C14 C15 C16 C17 C18 C19 C01 C25",
    "src/utils.rs": "C14 C15 C16 C18 C24 C23",
    "src/trie_ops.rs": "C01 C05 C02 C06 C13 C12 C20 C03",
    "src/trie_hashing.rs": "C03 C04 C08",
    "src/partial_trie.rs": "C04 C07 C21 C25 C01 C26 C03",
    "src/trie_subsets.rs": "C08 C09 C10 C11",
    "src/debug_tools/stats.rs": "C22",
    "src/debug_tools/diff.rs": "C23",
    "src/debug_tools/query.rs": "C24",
    "src/debug_tools/common.rs": "C24 C23",
}
RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| (?=[a-z(])", " & "), (r"\|= ", "&= "), (r"&= ", "|= "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(])(?!=)", ""), (r"\.min\(", ".max("),
    (r"_front\b", "_back"), (r"_back\b", "_front"), (r"_front_mut\b", "_back_mut"), (r"_back_mut\b", "_front_mut"),
    (r"big_endian", "little_endian"), (r"little_endian", "big_endian"), (r"\.count\b(?! \+)(?!:)", ".count.saturating_sub(1)"),
    (r"\.is_empty\(\)", ".is_empty() == false"), (r"\b(\w*)a_(\w+)\b", r"\1b_\2"), (r"\b(\w*)b_(\w+)\b", r"\1a_\2"),
    (r"\bNode::Hash\(_\)", "Node::Hash(_) if false"), (r"\ball\(", "any("), (r"\.clone\(\)\.into\(\)", ".into()"),
    (r"Some\((\w+)\)$", "None"), (r"=> Some\(.*\),$", "=> None,"), (r"\breturn (.*);", ""),
]


def mutants(repo, only):
    for f in CHECKS:
        if only and not re.search(only, f):
            continue
        lines = open(os.path.join(repo, f)).read().split("\n")
        for i, l in enumerate(lines):
            if l.startswith("#[cfg(test)]"):
                break
            c = l.split("//")[0]
            s = c.strip()
            if not s or s.startswith(("#", "use ", "///", "pub use", "impl", "fn ", "pub fn", "pub(crate) fn", "trace!", "debug!")):
                continue
            seen = set()
            for pat, to in RULES:
                for m in re.finditer(pat, c):
                    n = c[:m.start()] + m.expand(to) + c[m.end():]
                    if n != c and n not in seen:
                        seen.add(n)
                        yield f, i, n
            for m in re.finditer(r"(?<![\w.\"x'{])(0x[0-9a-f]+|0b[01]+|\d+)(?![\w.'])", c):
                if '"' in c[:m.start()]:
                    continue
                v = int(m.group(1), 0)
                for w in (v + 1, v - 1):
                    if w >= 0:
                        n = c[:m.start()] + str(w) + c[m.end():]
                        if n not in seen:
                            seen.add(n)
                            yield f, i, n
            if s.endswith(";") and not s.startswith(("let ", "return", "type ", "pub ", "const ")) and "(" in s:
                yield f, i, ""


def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -f '%s/[t]arget/debug/deps'" % cwd, shell=True)
        return 124, ""


def main():
    work, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    repo, v = work + "/repo", work + "/verif"
    if not os.path.exists(repo):
        os.makedirs(work, exist_ok=True)
        sh("git clone -q /repo %s" % repo, work, 60)
    if not os.path.exists(v):
        sh("git clone -q %s %s && sed -i 's#\"/repo\"#\"%s\"#' %s/harness/Cargo.toml %s/harness26/Cargo.toml" % (VERIF, v, repo, v, v), work, 60)
    done = {}
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done[d["id"]] = d
    env = dict(os.environ, CARGO_TARGET_DIR=repo + "/target", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", VERIF_REPO=repo)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    short = sorted({s.rsplit("src/lib.rs::", 1)[-1] for s in stable if "src/lib.rs::" in s})
    for f, i, n in list(mutants(repo, only)):
        id = hashlib.sha256(("%s:%d:%s" % (f, i, n)).encode()).hexdigest()[:12]
        if id in done:
            continue
        p = os.path.join(repo, f)
        orig = open(p).read()
        lines = orig.split("\n")
        d = {"id": id, "file": f, "line": i + 1, "old": lines[i].strip(), "new": n.strip()}
        lines[i] = n
        open(p, "w").write("\n".join(lines))
        try:
            t = time.time()
            rc, o = sh("cargo build --lib --offline -q", repo, 120, env)
            if rc:
                d["res"] = "no build"
            else:
                rc, o = sh("cargo test --lib --offline -q -- --test-threads 8", repo, 180, env)
                d["tests_s"] = round(time.time() - t)
                if rc:
                    d["res"] = "tests"
                else:
                    d["res"] = "MISSED"
                    for c in CHECKS[f].split():
                        t = time.time()
                        rc, o = sh("python3 check.py " + c, v, 900, env)
                        d.setdefault("runs", []).append([c, rc, round(time.time() - t)])
                        if rc == 1:
                            d["res"] = c
                            break
        finally:
            open(p, "w").write(orig)
        open(out, "a").write(json.dumps(d) + "\n")
        print(d["res"], f, i + 1, d["old"], "-->", d["new"], flush=True)


main()
