#!/usr/bin/env python3
"""Decides one property by symbolic execution of the LLVM IR of /repo's current source.

  check.py C01              run the check (VERIF_TIER, VERIF_SEED from the environment)
  check.py --setup          build everything once
  check.py --replay FILE    run a recorded counterexample against the real code
"""
import fcntl, json, os, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from runs import CHECKS

TARGET = os.path.join(HERE, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
HARNESS = os.path.join(HERE, "harness")
BUDGET = 840.0
DEEPER = 200  # seconds for one run of the thorough tier
T0 = time.time()


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


class BuildError(Exception):
    pass


def sh(cmd, cwd, extra=None, timeout=800):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def cargo(cmd, crate, extra):
    """with the recorded versions of the dependencies; if the crate under check now asks for others, with what fits offline"""
    try:
        return sh(cmd[:2] + ["--locked"] + cmd[2:], crate, extra)
    except BuildError as x:
        if "--locked" not in str(x).split("\n", 1)[1]:
            raise
    lock = os.path.join(crate, "Cargo.lock")
    kept = open(lock).read()
    try:
        return sh(cmd, crate, extra)
    finally:
        open(lock, "w").write(kept)


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(HERE, "engine"), {"CARGO_TARGET_DIR": os.path.join(TARGET, "engine")})
    return os.path.join(TARGET, "engine", "release", "symtrie")


def harness_of(feature):
    """the crate of the harness, its build folder"""
    return (os.path.join(HERE, "harness26"), "26") if feature == "c26" else (HARNESS, "")


def build_ir(feature, profile="release"):
    """LLVM IR of the harnesses of one property together with /repo's crate, built afresh on every run"""
    crate, suffix = harness_of(feature)
    e = {"CARGO_TARGET_DIR": os.path.join(TARGET, "ir" + suffix), "RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp"}
    sh(["cargo", "clean", "--offline", "--profile", profile, "--target", TRIPLE, "-p", "eth_trie_utils", "-p", "trie_harness"], crate, e)
    ll = os.path.join(TARGET, "ir" + suffix, TRIPLE, profile, "deps", "trie_harness.ll")
    if os.path.exists(ll):
        os.remove(ll)
    cargo(["cargo", "rustc", "--lib", "--profile", profile, "--offline", "--crate-type", "cdylib", "--features", feature, "--target", TRIPLE,
        "--", "--emit=llvm-ir", "-A", "warnings"], crate, e)
    os.makedirs(os.path.join(TARGET, "ll"), exist_ok=True)
    out = os.path.join(TARGET, "ll", "%s-%s.ll" % (feature, profile))
    shutil.move(ll, out)
    return out


def build_replay(feature, profile):
    """the same harnesses and crate as an ordinary program, for replaying counterexamples and samples"""
    crate, suffix = harness_of(feature)
    e = {"CARGO_TARGET_DIR": os.path.join(TARGET, "native" + suffix)}
    sh(["cargo", "clean", "--offline", "--profile", profile, "-p", "eth_trie_utils", "-p", "trie_harness"], crate, e)
    cargo(["cargo", "build", "--offline", "--profile", profile, "--features", "native," + feature, "--bin", "replay"], crate, e)
    out = os.path.join(TARGET, "ll", "replay-%s-%s" % (feature, profile))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copy2(os.path.join(TARGET, "native" + suffix, "debug" if profile == "dev" else profile, "replay"), out)
    return out


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(feature, profiles=("dev",), irs=("release",)):
    res, errs = {}, []

    def job(name, f, *a):
        try:
            res[name] = f(*a)
        except Exception as x:
            errs.append("%s: %s" % (name, x))

    def natives():
        for p in profiles:
            job(p, build_replay, feature, p)

    def ir():
        for p in irs:
            job("ir-" + p, build_ir, feature, p)

    with Lock():
        ts = [threading.Thread(target=job, args=("engine", build_engine)),
              threading.Thread(target=ir),
              threading.Thread(target=natives)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if errs:
        raise BuildError("\n".join(errs))
    return res


def replay(binary, entry, params, cases, timeout, verbose=False):
    """one outcome per case: (kind, trace words, notes); a hang or a crash of the process is an outcome too"""
    out = []
    i = 0
    while i < len(cases):
        text = "".join(" ".join(c) + "\n" for c in cases[i:])
        try:
            p = subprocess.run([binary, entry, params], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            got, died = p.stdout, "CRASH status %d %s" % (p.returncode, p.stderr[-200:].replace("\n", " "))
        except subprocess.TimeoutExpired as x:
            got, died = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), "HANG no answer within %d s" % timeout
        lines = got.splitlines()[: len(cases) - i]
        out += lines
        i += len(lines)
        if i < len(cases):
            out.append(died)
            i += 1
    res = []
    for l in out:
        head, _, notes = l.partition("\t")
        kind, _, rest = head.partition(" ")
        res.append((kind, rest.strip(), notes))
    return res


BROKEN = ("FAIL", "PANIC", "CRASH", "HANG")


def run_engine(engine, ll, run, params, deadline, seed, out):
    cmd = [engine, "run", "--ll", ll, "--entry", run["entry"], "--params", params, "--deadline", str(int(deadline)), "--threads", str(run.get("threads", 8)),
           "--seed", str(seed), "--samples", str(run.get("samples", 16)), "--max-viol", "3", "--out", out]
    for k, v in run.get("options", {}).items():
        cmd += ["--" + k, str(v)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=deadline + 120)
    if p.returncode != 0 or not os.path.exists(out):
        raise BuildError("engine: status %d\n%s" % (p.returncode, p.stdout[-3000:]))
    return json.load(open(out))


def main(prop):
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    feature = prop.lower()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    errors, unfinished, violations, reports, samples = [], [], [], [], []
    tot = {}
    functions, lines = set(), {}
    validated = 0
    # the bounds of the quick tier have to be exhausted; the thorough tier goes on to deeper ones as far as time allows
    runs = [(r, r["quick"], False) for r in chk["runs"]]
    if tier == "thorough":
        runs += [(r, r["thorough"], True) for r in chk["runs"] if r["thorough"] != r["quick"]]
    irs = sorted(set(r.get("build", "release") for r, _, _ in runs))
    bins = build(feature, ("dev", "plain") if tier == "thorough" or "unchecked" in irs else ("dev",), irs)
    build_s = time.time() - T0
    outdir = os.path.join(TARGET, "out")
    os.makedirs(outdir, exist_ok=True)
    for k, (run, params, deeper) in enumerate(runs):
        left = BUDGET - (time.time() - T0)
        irname = run.get("build", "release")
        name = "%s(%s)%s" % (run["entry"], params, "" if irname == "release" else " [%s]" % irname)
        if left < 5:
            (unfinished if deeper else errors).append("%s: no time left" % name)
            continue
        if deeper:
            left = min(left, DEEPER)
        d = run_engine(bins["engine"], bins["ir-" + irname], run, params, left, seed, os.path.join(outdir, "%s-%d.json" % (prop, k)))
        st = d["stats"]
        rep = {"harness": run["entry"], "parameters": params, "build": irname, "bounds": run["bounds"](params.split(",")),
               "exhausted": d["complete"], "paths": st["paths"], "paths_ending_in_required_panic": st["panic_paths"], "cut_by_assumption": st["killed_by_assumption"],
               "solver_queries": st["queries"], "sat": st["sat"], "unsat": st["unsat"], "answered_from_cache": st["cached"], "solver_s": round(st["solver_s"], 3),
               "assertions_by_rewriting": st["assertions_by_rewriting"], "assertions_by_solver": st["assertions_by_solver"],
               "ir_instructions": st["instructions"], "symbolic_inputs_max": st["max_symbolic_inputs"], "decisions_max": st["max_decisions"],
               "hash_calls_symbolic": st["symbolic_hashes"], "hash_calls_concrete": st["concrete_hashes"], "witnesses_reached": d["covers"], "wall_s": round(st["wall_s"], 2)}
        for n in ("paths", "forks", "choices", "queries", "sat", "unsat", "cached", "solver_s", "assertions_by_rewriting", "assertions_by_solver", "instructions", "killed_by_assumption"):
            tot[n] = tot.get(n, 0) + st[n]
        functions.update(d["functions"])
        for f, n in d["lines"].items():
            if f.startswith("/repo/"):
                lines[f] = max(lines.get(f, 0), n)
        # every counterexample, and every path over the limits, has to show on the real code before it is reported
        confirmed = 0
        for v in d["violations"] + d["limits"][:2]:
            seen = {}
            for profile in ("dev", "plain"):
                if profile not in bins:
                    with Lock():
                        bins[profile] = build_replay(feature, profile)
                seen[profile] = replay(bins[profile], run["entry"], params, [v["inputs"]], 20)[0]
            if any(o[0] in BROKEN for o in seen.values()):
                confirmed += 1
                rdir = os.path.join(evdir, "replay")
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-%d-%d.json" % (prop, k, confirmed))
                rec = {"property": prop, "harness": run["entry"], "parameters": params, "inputs": v["inputs"], "found": v["what"],
                       "on_the_real_code": {p: " ".join(x for x in o if x) for p, o in seen.items()}, "replay_with": "python3 check.py --replay " + path}
                json.dump(rec, open(path, "w"), indent=1)
                violations.append((path, rec))
                print("%s: %s" % (name, v["what"][:400]))
                for p, o in seen.items():
                    print("  %s build: %s" % (p, " ".join(x for x in o if x)[:600]))
            else:
                errors.append("%s: counterexample does not show on the real code: %s / %s / inputs %s" % (name, v["what"][:300], seen, " ".join(v["inputs"])))
        rep["violations"] = confirmed
        cut = deeper and d["pending_left"] > 0 and not d["limits"] and not d["inconclusive"]
        if cut and not confirmed:
            unfinished.append("%s: %d paths done, %d pending" % (name, st["paths"], d["pending_left"]))
        elif not d["complete"] and not confirmed:
            errors.append("%s: not exhausted (%d pending, limits %d, inconclusive %s)" % (name, d["pending_left"], len(d["limits"]), [x["what"][:300] for x in d["inconclusive"][:2]]))
        missing = [c for c in run.get("covers", []) if c not in d["covers"]]
        if missing and not confirmed and not cut:
            errors.append("%s: witnesses %s not reached" % (name, missing))
        if st["assertions_by_rewriting"] + st["assertions_by_solver"] + st["panic_paths"] == 0 and not confirmed and not cut:
            errors.append("%s: no assertion evaluated" % name)
        # sampled paths: same inputs, same outcome and same trace on the real code
        cases = [s["inputs"] for s in d["samples"]]
        for profile in [p for p in ("dev", "plain") if p in bins]:
            got = replay(bins[profile], run["entry"], params, cases, 60)
            for s, o in zip(d["samples"], got):
                want = ("PANIC-EXPECTED" if s["panics"] else "OK", " ".join(s["trace"]))
                if (o[0], o[1]) == want:
                    validated += 1
                else:
                    errors.append("%s: sample differs on the real code (%s): engine %s, real %s, inputs %s" % (name, profile, want, o[:2], " ".join(s["inputs"])))
            if profile == "dev":
                for s, o in list(zip(d["samples"], got))[:3]:
                    samples.append({"harness": run["entry"], "inputs": s["inputs"], "case": o[2][:400], "outcome": o[0], "trace": o[1][:200]})
        rep["samples_replayed"] = len(cases)
        reports.append(rep)
        print("%s: %d paths, %d queries, solver %.1f s, %.1f s%s" % (name, st["paths"], st["queries"], st["solver_s"], st["wall_s"], "" if d["complete"] else " (not exhausted)"), flush=True)
        if violations:
            break
    real = sorted(f for f in functions if "eth_trie_utils" in f or "keccak" in f.lower())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot.get("paths", 0), "transitions": tot.get("forks", 0) + tot.get("choices", 0),
              "traces_validated_against_impl": validated, "samples": samples,
              "meaning": "states: complete symbolic paths, each standing for all inputs of its path condition; transitions: symbolic branches and enumerated choices taken",
              "solver_queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0), "answered_from_cache": tot.get("cached", 0), "solver_s": round(tot.get("solver_s", 0), 3),
              "assertions_by_rewriting": tot.get("assertions_by_rewriting", 0), "assertions_by_solver": tot.get("assertions_by_solver", 0),
              "ir_instructions": tot.get("instructions", 0), "functions_encoded": real, "functions_encoded_total": len(functions),
              "source_lines_executed": lines, "runs": reports, "build_s": round(build_s, 1)},
          "assumptions": chk["assumptions"], "violations": [r for _, r in violations], "wall_s": round(time.time() - T0, 1)}
    if unfinished:
        ev["coverage"]["deeper_bounds_not_exhausted"] = unfinished
    if errors:
        ev["coverage"]["errors"] = errors
    json.dump(ev, open(evfile, "w"), indent=1)
    for x in unfinished:
        print("NOT EXHAUSTED " + x)
    for x in errors:
        print("ERROR " + x)
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        return 1
    if errors:
        return 2
    print("%s held: %d paths, %d solver queries (%.1f s), %d traces replayed, %.0f s" % (prop, tot["paths"], tot["queries"], tot["solver_s"], validated, time.time() - T0))
    return 0


def do_replay(path):
    r = json.load(open(path))
    feature = r["property"].lower()
    bad = False
    with Lock():
        for p in ("dev", "plain"):
            o = replay(build_replay(feature, p), r["harness"], r["parameters"], [r["inputs"]], 20)[0]
            print("%s build: %s" % (p, " ".join(x for x in o if x)))
            bad |= o[0] in BROKEN
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            b = build("c01")
            print(sh([b["engine"], "selftest"], HERE)[-500:])
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(do_replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except BuildError as x:
        print("ERROR %s" % x)
        sys.exit(2)
    except Exception as x:
        import traceback
        traceback.print_exc()
        sys.exit(3)
