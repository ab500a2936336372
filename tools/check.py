#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED)

Builds the engine, the LLVM IR of the harness crates (which pull in /repo's current
source) and the native replay binaries, explores every harness of the property
symbolically, replays what the solver found against the native build, and writes
evidence/PROPERTY.json.  Exit 0: held.  Exit 1: VIOLATION.  Exit 2: no verdict.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import specs  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TOOLCHAIN = "nightly"
TARGET = "riscv64gc-unknown-linux-gnu"
IRFLAGS = "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=no -Awarnings"
T0 = time.time()
QUICK_SECONDS = 830


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Broken(Exception):
    """No verdict: the machinery (not the property) failed."""


def run(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTUP_TOOLCHAIN", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise Broken("timeout: %s" % " ".join(cmd)) from x
    return p.returncode, p.stdout


def build_engine():
    rc, out = run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], os.path.join(HERE, "engine"))
    if rc != 0:
        raise Broken("engine does not build:\n" + out[-4000:])
    exe = os.path.join(BUILD, "engine", "release", "irsym")
    rc, out = run([exe, "--selftest"], HERE)
    if rc != 0:
        raise Broken("engine self-test failed:\n" + out[-2000:])
    return exe


class CompileFailure(Exception):
    def __init__(self, crate, out):
        super().__init__(crate)
        self.crate = crate
        self.out = out


def build_ir(crate):
    td = os.path.join(BUILD, "ir", crate)
    cmd = ["cargo", "+" + TOOLCHAIN, "build", "--lib", "--release", "-Zbuild-std=std,panic_abort", "--target", TARGET, "--offline", "--target-dir", td]
    rc, out = run(cmd, os.path.join(HERE, "hx", crate), {"RUSTFLAGS": IRFLAGS})
    if rc != 0:
        raise CompileFailure(crate, out)
    # Only the newest IR of each crate counts: stale hashes stay behind in the target directory.
    newest = {}
    for d, _, files in os.walk(os.path.join(td, TARGET, "release")):
        for f in files:
            if f.endswith(".ll"):
                k = f.rsplit("-", 1)[0]
                p = os.path.join(d, f)
                m = os.path.getmtime(p)
                if k not in newest or m > newest[k][0]:
                    newest[k] = (m, p)
    return [p for _, p in sorted(newest.values(), key=lambda x: x[1])]


def build_native(crate):
    td = os.path.join(BUILD, "native", crate)
    cmd = ["cargo", "+" + TOOLCHAIN, "build", "--bin", "replay", "--release", "--offline", "--target-dir", td]
    rc, out = run(cmd, os.path.join(HERE, "hx", crate), {"RUSTFLAGS": "-Awarnings"})
    if rc != 0:
        raise CompileFailure(crate, out)
    return os.path.join(td, "release", "replay")


def native(exe, lines, timeout, scratch, name, keep_going=False):
    """Runs the native build on the given input lines; returns (outcome, stdout, stderr)."""
    path = os.path.join(scratch, name)
    with open(path, "w") as f:
        f.write("".join(l + "\n" for l in lines))
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    if keep_going:
        env["SYM_KEEP_GOING"] = "1"

    def limit():
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    try:
        p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limit, cwd=scratch)
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")
    out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    if p.returncode == 0:
        return "ok", out, err
    if p.returncode == 77:
        return "assume", out, err
    if p.returncode == 101 and "ASSERT-FAIL" in out:
        return "assert", out, err
    if "stack overflow" in err or "overflowed its stack" in err:
        return "stack", out, err
    if "memory allocation" in err:
        return "memory", out, err
    if p.returncode < 0 or p.returncode == 101:
        return "panic", out, err
    return "exit%d" % p.returncode, out, err


# What a native run may look like when it confirms a symbolic violation of each kind.
CONFIRMS = {
    "assert": {"assert"},
    "panic": {"panic"},
    "abort": {"panic"},
    "fuel": {"timeout", "stack", "memory"},
    "stack": {"stack", "timeout", "memory"},
    "alloc": {"memory", "panic"},
    "unreachable": {"panic"},
}


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    d = json.load(open(path))
    return {k["id"]: k for k in d["findings"] if k["property"] == prop}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = specs.PROPS[prop]
    runs = spec[tier] if tier in spec else spec["quick"]
    crates = sorted({r["crate"] for r in runs})
    known = known_findings(prop)
    scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    replays = os.path.join(BUILD, "replays")
    os.makedirs(replays, exist_ok=True)
    try:
        rc = decide(prop, tier, seed, spec, runs, crates, known, scratch, evidence, replays)
    except Broken as e:
        print("NO-VERDICT property=%s: %s" % (prop, e), flush=True)
        rc = 2
    except CompileFailure as e:
        print("NO-VERDICT property=%s: harness crate %s does not build:\n%s" % (prop, e.crate, e.out[-6000:]), flush=True)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    log("exit", rc)
    sys.exit(rc)


def explored(engine, lls, runs, scratch, stop, tier):
    """Runs the engine on the runs, neighbouring short ones of one crate in one process."""
    # The quick runs share what is left of the time that a check has; they need a quarter of it. On code that is much
    # slower to explore, one run leaves time for the others and stops early, which the evidence then says.
    limit_of = lambda r: max(20, int(0.6 * (QUICK_SECONDS - (time.time() - T0)))) if tier == "quick" else 3 * r.get("time", 240)
    opts = lambda r: (r["crate"], r.get("fuel", 20_000_000), r.get("depth", 3000), r.get("samples", 48))
    i = 0
    while i < len(runs) and not stop():
        group = [runs[i]]
        while i + len(group) < len(runs) and len(group) < 12 and runs[i].get("batch") and runs[i + len(group)].get("batch") and opts(runs[i + len(group)]) == opts(runs[i]):
            group.append(runs[i + len(group)])
        i += len(group)
        crate, fuel, depth, samples = opts(group[0])
        out = os.path.join(scratch, "%d.json" % i)
        cmd = [engine]
        for p in lls[crate]:
            cmd += ["--ll", p]
        limit = max(limit_of(r) for r in group) if tier == "quick" else sum(limit_of(r) for r in group)
        cmd += ["--entry", ",".join("%s@%d" % (r["entry"], limit_of(r)) for r in group)]
        cmd += ["--out", out, "--threads", str(os.cpu_count() or 4), "--fuel", str(fuel), "--depth", str(depth), "--samples", str(samples)]
        rc, text = run(cmd, scratch, timeout=limit + (30 if tier == "quick" else 120))
        if rc != 0 or not os.path.exists(out):
            raise Broken("engine failed on %s (%d):\n%s" % (group[0]["entry"], rc, text[-3000:]))
        yield from zip(group, json.load(open(out)))


def decide(prop, tier, seed, spec, runs, crates, known, scratch, evidence, replays):
    pool = cf.ThreadPoolExecutor(8)
    fe = pool.submit(build_engine)
    fi = {c: pool.submit(build_ir, c) for c in crates}
    fn = {c: pool.submit(build_native, c) for c in crates}
    compile_viols = []
    engine = fe.result()
    lls, exes = {}, {}
    for c in crates:
        try:
            exes[c] = fn[c].result()
            lls[c] = fi[c].result()
        except CompileFailure as e:
            v = spec.get("compile_violation")
            v = v(e.out) if v else None
            if v is None:
                raise
            path = os.path.join(replays, "%s-compile-%s.txt" % (prop, c))
            open(path, "w").write(e.out)
            compile_viols.append((v, path))
            fi[c].exception()
    log("built", ", ".join(crates))
    if compile_viols:
        for v, path in compile_viols:
            print("  generated code of the corpus does not compile: %s" % v)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        write_evidence(prop, tier, seed, spec, runs, [], {}, evidence, len(compile_viols), ["corpus did not compile: " + v for v, _ in compile_viols])
        return 1

    results, problems = [], []
    confirmed, known_hit = [], {}
    validated = mismatched = 0
    for r, j in explored(engine, lls, runs, scratch, lambda: bool(confirmed), tier):
        c, entry = r["crate"], r["entry"]
        j["crate"] = c
        j["bounds"] = r["bounds"]
        results.append(j)
        log("%s: paths=%d pruned=%d violating=%d queries=%d (sat %d, unsat %d) solver=%.1fs wall=%.1fs" % (entry, j["ok"], j["pruned"], j["violating"], j["queries"], j["sat"], j["unsat"], j["solver_time"], j["wall"]))
        # Violations: replay each against the native build.
        seen_unknown = False
        for n, v in enumerate(j["violations"]):
            line = " ".join([entry] + [str(x[1]) for x in v["vals"]])
            is_known = v["kind"] == "assert" and v["msg"].startswith("KNOWN:")
            # A violation that is in the known-findings file must be the one that fails here, and
            # an earlier known one must not hide a later unlisted one.
            oc, so, se = native(exes[c], [line], 20, scratch, "v.txt", keep_going=not is_known)
            if oc == "ok" and "ASSERT-FAIL" in so:
                oc = "assert"
            fails = re.findall(r"ASSERT-FAIL (.*)", so)
            ok = oc in CONFIRMS.get(v["kind"], set())
            if v["kind"] == "assert":
                ok = v["msg"] in fails
            if not ok and oc in ("panic", "stack", "timeout", "memory") and v["kind"] != "assert":
                ok = True
            if not ok:
                problems.append("%s: %s (%s) does not reproduce natively (%s): %s" % (entry, v["kind"], v["msg"], oc, line[:300]))
                continue
            if is_known:
                kid = v["msg"][6:]
                if kid in known:
                    known_hit.setdefault(kid, line)
                    continue
            seen_unknown = True
            h = hashlib.sha1((line + v["msg"]).encode()).hexdigest()[:10]
            path = os.path.join(replays, "%s-%s-%s.txt" % (prop, entry, h))
            with open(path, "w") as f:
                f.write(line + "\n")
            with open(path + ".log", "w") as f:
                f.write("kind: %s\nmessage: %s\nnative outcome: %s\nreplay: %s %s\nstdout:\n%s\nstderr:\n%s\nsymbolic stack:\n%s\n" % (v["kind"], v["msg"], oc, exes[c], path, so, se, "\n".join(v["stack"])))
            confirmed.append((entry, v, oc, path, se))
        # Sampled paths: the native build must observe what the engine observed.
        lines = [" ".join([entry] + [str(x[1]) for x in s["vals"]]) for s in j["samples"]]
        if lines:
            oc, so, se = native(exes[c], lines, 120, scratch, "s.txt", keep_going=True)
            got = re.findall(r"^OBS (.*?) ?\| ?(.*)$", so, re.M)
            for k, s in enumerate(j["samples"]):
                want = (" ".join(map(str, s["obs"])), " ".join(map(str, s["covers"])))
                if k < len(got) and (got[k][0].strip(), got[k][1].strip()) == want:
                    validated += 1
                else:
                    mismatched += 1
                    if mismatched <= 3:
                        problems.append("%s: native run disagrees with the symbolic one (%s): %s\n    want %s\n    got %s" % (entry, oc, lines[k][:300], want, got[k] if k < len(got) else (so[-300:], se[-300:])))
        if not seen_unknown:
            if j["errors"]:
                problems.append("%s: not encodable: %s" % (entry, "; ".join("%s (x%d)" % (k, n) for k, n in list(j["errors"].items())[:4])))
            if j["timed_out"]:
                log("INCOMPLETE: %s was cut off after %ds; what follows is about the %d paths explored" % (entry, j["wall"], j["ok"]))
            if j["unknown"]:
                problems.append("%s: %d queries undecided" % (entry, j["unknown"]))
            for cov in r.get("covers", []):
                if not j["timed_out"] and not j["covers"].get(str(cov)):
                    problems.append("%s: vacuous, cover %s never reached" % (entry, cov))
            if j["ok"] < r.get("min_paths", 1):
                problems.append("%s: only %d paths completed" % (entry, j["ok"]))
    stats = {"validated": validated, "mismatched": mismatched}
    write_evidence(prop, tier, seed, spec, runs, results, stats, evidence, len(confirmed), problems)
    for kid in known:
        if kid in known_hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, known[kid]["what"]), flush=True)
    if confirmed:
        shown = set()
        for entry, v, oc, path, se in confirmed:
            key = (entry, v["kind"], v["msg"])
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            print("  %s: %s: %s (native: %s) %s" % (entry, v["kind"], v["msg"], oc, se.strip().splitlines()[-1][:200] if se.strip() else ""))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        for p in problems:
            print("  also:", p)
        return 1
    for p in problems:
        print("PROBLEM:", p)
    if problems:
        print("NO-VERDICT property=%s" % prop, flush=True)
        return 2
    print("HELD property=%s (%d symbolic paths, %d solver queries)" % (prop, sum(j["ok"] for j in results), sum(j["queries"] for j in results)))
    return 0


REPO_CRATES = re.compile(r"(?<![A-Za-z_])(chomp|chewed|autonibble|chomp_bench)(::|\[)")


def write_evidence(prop, tier, seed, spec, runs, results, stats, path, violations, problems):
    fns, samples = set(), []
    for j in results:
        for crate, f in j["functions"]:
            if REPO_CRATES.search(f) or crate in ("chomp", "chewed", "autonibble", "chomp_bench"):
                fns.add(f)
        for s in j["samples"][:3]:
            samples.append({"entry": j["entry"], "inputs": [x[1] for x in s["vals"]][:64], "observed": s["obs"][:32]})
    entries = [
        {
            "entry": j["entry"],
            "bounds": j["bounds"],
            "paths": j["ok"],
            "paths_cut_by_assumptions": j["pruned"],
            "violating_paths": j["violating"],
            "forks": j["forks"],
            "symbolic_branch_decisions": j["decisions"],
            "ir_instructions": j["steps"],
            "symbolic_branch_sites": j["sites"],
            "max_symbolic_variables_on_a_path": j["max_vars"],
            "assertions_evaluated": j["asserts"],
            "assertions_sent_to_solver": j["assert_queries"],
            "solver_queries": j["queries"],
            "solver_sat": j["sat"],
            "solver_unsat": j["unsat"],
            "solver_unknown": j["unknown"],
            "query_cache_hits": j["cache_hits"],
            "solver_seconds": j["solver_time"],
            "wall_seconds": j["wall"],
            "exhausted_within_bounds": not j["timed_out"] and not j["errors"],
            "covers": j["covers"],
            "functions_executed": len(j["functions"]),
        }
        for j in results
    ]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": sum(j["ok"] + j["violating"] for j in results),
            "transitions": sum(j["decisions"] for j in results),
            "traces_validated_against_impl": stats.get("validated", 0),
            "samples": samples[:40] or ["none"],
            "exhaustive": bool(results) and all(not j["timed_out"] and not j["errors"] for j in results),
            "explanation": "states: symbolic paths explored to their end; transitions: symbolic branch decisions on them. The solver (Z3 %s) decides every branch feasibility and every assertion for all values of the symbolic inputs within the bounds; the IR is compiled from the current source tree on this run." % (results[0]["z3"] if results else "?"),
            "solver_queries": sum(j["queries"] for j in results),
            "solver_seconds": round(sum(j["solver_time"] for j in results), 3),
            "bounds": spec["bounds"],
            "outside_the_bounds": spec["outside"],
            "functions_encoded": sorted(fns),
            "harnesses": entries,
            "problems": problems,
            "native_disagreements": stats.get("mismatched", 0),
        },
        "assumptions": spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": violations,
    }
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
