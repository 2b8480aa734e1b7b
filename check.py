#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of /repo's current code.

check.py <property id>      (tier from VERIF_TIER, default quick)
exit 0 held / 1 VIOLATION / 2 no answer
"""
import json, os, subprocess, sys, time, re, shutil, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, CRATES

BUILD = os.path.join(HERE, "build")
ENGINE = os.path.join(HERE, "engine/target/release/rsx")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("RUSTC_WRAPPER", None)
DEADLINE = time.time() + (840 if TIER == "quick" else 6 * 3600)


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, env, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(HERE, "engine"), ENV)


# Crates with threads. The pass makes atomic operations visible to the harness's scheduler.
# Replays run the very code that is analysed, linked with symrt/native.c, so that they take
# the same steps.
THREADED = ["srv"]


def stale(tgt, crate):
    """Make cargo rebuild the code under test and the harness whatever the file times say."""
    for prof in ("release", "debug"):
        fp = os.path.join(tgt, prof, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("ariadne-dns-") or d.startswith(crate + "-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def build_ir(crate):
    tgt = os.path.join(BUILD, "ir")
    deps = os.path.join(tgt, "release/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(crate + "-") and f.endswith(".ll") or f.startswith("lib" + crate + "-") and f.endswith(".a"):
                os.remove(os.path.join(deps, f))
    stale(tgt, crate)
    env = dict(ENV, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
    sh(["cargo", "rustc", "--offline", "-q", "--lib", "--crate-type", "staticlib", "--release", "--target-dir", tgt,
        "--"] + (["--emit=llvm-ir,link", "-C", "passes=tsan"] if crate in THREADED else ["--emit=llvm-ir"]), os.path.join(HERE, "harness", crate), env)
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(crate + "-") and f.endswith(".ll")]
    if len(ll) != 1:
        raise NoAnswer("expected one IR file for %s, found %d" % (crate, len(ll)))
    return ll[0]


def build_native(crate):
    if crate in THREADED:
        deps = os.path.join(BUILD, "ir/release/deps")
        a = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("lib" + crate + "-") and f.endswith(".a")]
        if len(a) != 1:
            raise NoAnswer("expected one library for %s, found %d" % (crate, len(a)))
        out = os.path.join(BUILD, "native_" + crate)
        sh(["gcc", "-O1", "-rdynamic", "-o", out, os.path.join(HERE, "harness/symrt/native.c"), a[0], "-lpthread", "-ldl", "-lm"], HERE, ENV)
        return out
    tgt = os.path.join(BUILD, "native")
    stale(tgt, crate)
    env = dict(ENV)
    env.pop("RUSTFLAGS", None)
    sh(["cargo", "build", "--offline", "-q", "--features", "native", "--bin", crate + "_replay", "--target-dir", tgt],
       os.path.join(HERE, "harness", crate), env)
    return os.path.join(tgt, "debug", crate + "_replay")


def replay(binp, harness, stream, params, timeout=20, argv=()):
    d = os.path.join(BUILD, "replay", "tmp.%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "vals")
    with open(f, "w") as h:
        h.write(" ".join(str(x) for x in stream))
    env = dict(ENV, VP_PARAMS=",".join(str(x) for x in params))
    try:
        r = subprocess.run([binp, harness, f] + list(argv), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, timeout=timeout)
        out = r.stdout.decode("utf8", "replace")
        rc = r.returncode
    except subprocess.TimeoutExpired:
        return {"outcome": "hang", "log": [], "covers": []}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    o, log, cov = None, [], []
    for l in out.splitlines():
        if l.startswith("LOG "):
            log.append(int(l[4:]))
        elif l.startswith("COVER "):
            cov.append(l[6:])
        elif l.startswith("OUTCOME "):
            o = l[8:]
    if o is None:
        o = "crash rc=%d" % rc
    return {"outcome": o, "log": log, "covers": cov}


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) key=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append({"harness": m.group(2), "key": m.group(3), "what": m.group(4)})
    return out


def run_engine(ll, h, params, secs, known, samples):
    args = [ENGINE, "--ir", ll, "--harness", h["name"], "--procs", str(os.cpu_count() or 8), "--heap-ite", "0",
            "--max-seconds", str(int(secs)), "--samples", str(samples), "--out", os.path.join(BUILD, "out.%d" % os.getpid())]
    if params:
        args += ["--params", ",".join(str(x) for x in params)]
    for k in known:
        args += ["--known", k]
    for r in h.get("redirect", []):
        args += ["--redirect", r]
    if "max_instr" in h:
        args += ["--max-instr", str(h["max_instr"])]
    for a in h.get("argv", []):
        args += ["--argv", a]
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=secs + 120)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        raise NoAnswer("engine gave no result on %s (rc %d): %s" % (h["name"], r.returncode, (r.stdout + r.stderr)[-800:]))


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    build_engine()
    crates = sorted({h["crate"] for h in spec["harnesses"]})
    lls, bins = {}, {}
    for c in crates:
        lls[c] = build_ir(c)
        bins[c] = build_native(c)
    t_build = time.time() - t0
    tot = {k: 0 for k in ("paths", "forks", "instrs", "queries", "dom_queries", "audited", "asserts", "assert_queries", "solver_us")}
    per, funcs, samples_out, notes = [], set(), [], []
    validated = 0
    violations, nviol = [], 0
    known = known_findings(pid)
    seen_known = set()
    rng = random.Random(SEED)
    for h in spec["harnesses"]:
        if TIER == "quick" and h.get("thorough_only"):
            continue
        for params in (h.get("thorough") if TIER == "thorough" and h.get("thorough") else h.get("quick", [[]])):
            left = DEADLINE - time.time()
            if left < 5:
                raise NoAnswer("time budget used up before %s" % h["name"])
            kk = [k["key"] for k in known if k["harness"] == h["name"]]
            res = run_engine(lls[h["crate"]], h, params, min(left, h.get("secs", 400) if TIER == "quick" else 7200), kk, 24 if TIER == "quick" else 60)
            if "error" in res:
                raise NoAnswer("%s: %s" % (h["name"], res["error"]))
            for k in tot:
                tot[k] += res.get(k, 0)
            funcs.update(res["functions"])
            binp = bins[h["crate"]]
            new = []
            for v in res["violations"]:
                k = next((k for k in known if k["harness"] == h["name"] and k["key"] in v["key"]), None)
                if k:
                    seen_known.add((k["harness"], k["key"], k["what"]))
                else:
                    new.append(v)
            confirmed = []
            for v in new[:8]:
                rp = replay(binp, h["name"], v["stream"], params, argv=h.get("argv", []))
                bad = rp["outcome"].startswith(("assert", "panic ", "crash", "hang"))
                if bad:
                    confirmed.append((v, rp))
                    break
                else:
                    notes.append("not reproduced natively: %s %s -> %s (values %s)" % (h["name"], v["key"], rp["outcome"], v["stream"][:40]))
            nviol += len(confirmed)
            for v, rp in confirmed:
                d = os.path.join(BUILD, "replay", pid)
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, "%s.json" % h["name"])
                with open(f, "w") as fh:
                    json.dump({"property": pid, "harness": h["name"], "crate": h["crate"], "params": params, "values": v["stream"],
                               "violated": v["key"], "detail": v["detail"], "native_outcome": rp["outcome"], "native_log": rp["log"][:200],
                               "how": "build harness/%s with --features native, then VP_PARAMS=%s %s_replay %s <file with the values>" %
                                      (h["crate"], ",".join(map(str, params)), h["crate"], h["name"])}, fh, indent=1)
                violations.append((f, v, rp))
            if not violations:
                if new:
                    raise NoAnswer("the engine reports a violation that the real code does not show:\n" + "\n".join(notes))
                if not res["complete"]:
                    raise NoAnswer("%s %s incomplete: timed_out=%s errors=%s paths=%s" % (h["name"], params, res["timed_out"], res["errors"], res.get("paths")))
                miss = [c for c in h.get("covers", []) if not res["covers"].get(c)]
                if miss:
                    raise NoAnswer("%s: vacuity: never reached %s (reached %s)" % (h["name"], miss, sorted(res["covers"])))
                # differential validation of sampled paths against the native code
                sm = res["samples"]
                rng.shuffle(sm)
                want_n = h.get("samples", 8 if TIER == "quick" else 40)
                for s in sm[:want_n]:
                    rp = replay(binp, h["name"], s["stream"], params, argv=h.get("argv", []))
                    so = s["outcome"].split(" ")[0]
                    ro = rp["outcome"].split(" ")[0]
                    scov = [c for c in s["covers"].split("|") if c]
                    if so != ro or s["log"] != rp["log"] or sorted(set(scov)) != sorted(set(rp["covers"])):
                        raise NoAnswer("engine and native execution disagree on %s values %s: engine %s %s %s native %s %s %s" %
                                       (h["name"], s["stream"], s["outcome"], s["log"][:20], scov, rp["outcome"], rp["log"][:20], rp["covers"]))
                    validated += 1
                for s in sm[:2]:
                    samples_out.append({"harness": h["name"], "values": s["stream"][:64], "outcome": s["outcome"], "covers": s["covers"]})
            per.append({"harness": h["name"], "params": params, "bounds": h.get("bounds", ""), "paths": res.get("paths", 0), "queries": res.get("queries", 0),
                        "dom_queries": res.get("dom_queries", 0), "asserts": res.get("asserts", 0), "assert_queries": res.get("assert_queries", 0),
                        "solver_s": round(res.get("solver_us", 0) / 1e6, 3), "max_query_s": round(res.get("max_query_us", 0) / 1e6, 3),
                        "wall_s": res["wall_s"], "covers": res["covers"], "complete": res["complete"]})
            if violations:
                break
        if violations:
            break
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["instrs"], "traces_validated_against_impl": validated, "samples": samples_out,
                       "symbolic_paths": tot["paths"], "forks": tot["forks"], "ir_instructions": tot["instrs"],
                       "solver_queries": tot["queries"], "domain_queries": tot["dom_queries"], "domain_queries_audited_with_z3": tot["audited"], "asserts_checked": tot["asserts"], "assert_queries": tot["assert_queries"],
                       "solver_s": round(tot["solver_us"] / 1e6, 3), "functions_encoded": sorted(funcs), "runs": per, "build_s": round(t_build, 2),
                       "explanation": "states = feasible symbolic paths through the compiled code (each stands for every input satisfying its path condition); transitions = LLVM instructions interpreted"},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for hn, k, w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if violations:
        f, v, rp = violations[0]
        print("violated: %s | %s | native: %s" % (v["key"], v["detail"][:300], rp["outcome"]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    print("held: property=%s tier=%s paths=%d queries=%d solver_s=%.1f wall_s=%.1f" % (pid, TIER, tot["paths"], tot["queries"], tot["solver_us"] / 1e6, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            os.makedirs(BUILD, exist_ok=True)
            build_engine()
            for c in CRATES:
                build_ir(c)
                build_native(c)
            sys.exit(0)
        sys.exit(main())
    except NoAnswer as e:
        print("NO-ANSWER: %s" % e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("NO-ANSWER: timeout %s" % e)
        sys.exit(2)
