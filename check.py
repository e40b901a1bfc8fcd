#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.
check.py --setup: build the executor.
check.py --replay FILE: run a recorded counterexample against the real code.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken (the
counterexample was replayed against the real code). Exit 2: no verdict.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import uuid

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
ENGINE = os.path.join(BUILD, "engine", "release", "lsym")
CORE = "/repo/crates/unicode-intervals"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
# The binding is built for any interpreter from 3.10 on, as the repository does.
ENV["PYO3_NO_PYTHON"] = "1"
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "PYO3_PYTHON", "PYO3_CONFIG_FILE"):
    ENV.pop(k, None)

sys.path.insert(0, HERE)
import jobs as J  # noqa: E402


def log(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    pass


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise NoVerdict("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def build_engine():
    """The executor depends on /verif alone: rebuilt when its sources change."""
    src = os.path.join(HERE, "engine")
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(src)):
        if "target" in d:
            continue
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(f.encode() + open(os.path.join(d, f), "rb").read())
    stamp = os.path.join(BUILD, "engine.hash")
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(BUILD, exist_ok=True)
    sh(["cargo", "build", "--release", "--target-dir", os.path.join(BUILD, "engine")], src, 1200)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def build_ir(feature, scratch):
    """LLVM IR of the real crate and the harnesses, as rustc writes it now."""
    t = os.path.join(scratch, "ir_" + feature)
    sh(["cargo", "rustc", "--release", "--lib", "--features", feature, "--target-dir", t, "--",
        "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], os.path.join(HERE, "harness"))
    deps = os.path.join(t, "release", "deps")
    lls = [f for f in os.listdir(deps) if f.startswith("uharness") and f.endswith(".ll")]
    if len(lls) != 1:
        raise NoVerdict("expected one IR file, found %r" % lls)
    return os.path.join(deps, lls[0])


def build_native(feature, profile, scratch):
    t = os.path.join(scratch, "rp_" + feature)
    python = feature == "python"
    cmd = ["cargo", "build", "--lib" if python else "--bins", "--features", feature, "--target-dir", t + "_" + profile]
    if profile == "release":
        cmd.append("--release")
    sh(cmd, os.path.join(HERE, "replay"))
    return os.path.join(t + "_" + profile, "release" if profile == "release" else "debug", "libreplaylib.so" if python else "replay")


def run_native(binary, text, scratch, timeout=60):
    """(kind, notes, output): kind is ok, fail, assume, crash or hang."""
    path = os.path.join(scratch, "case-%s.txt" % uuid.uuid4().hex)
    with open(path, "w") as f:
        f.write(text)
    try:
        cmd = [binary, path]
        if binary.endswith(".so"):
            # Inside the real interpreter.
            cmd = [sys.executable, "-I", "-S", "-c", "import ctypes, sys; ctypes.PyDLL(sys.argv[1]).replay_main(sys.argv[2].encode())"] + cmd
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace",
                           env=dict(ENV, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return "hang", [], "no end after %d s" % timeout
    finally:
        if os.path.exists(path):
            os.remove(path)
    notes = [[int(x) for x in l.split()[1:]] for l in p.stdout.splitlines() if re.match(r"note \d+ \d+$", l)]
    kind = {0: "ok", 10: "fail", 77: "assume"}.get(p.returncode, "crash")
    return kind, notes, p.stdout


def case_text(line, inputs, head=""):
    t = head + "job %s\n" % line
    for i in inputs:
        t += "input %d %d %d\n" % (i[0], i[1], i[3])
    return t


def run_engine(ll, jobs, out, workers, seconds, total, extra=()):
    """Result per job; None for a job without one."""
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "jobs"), "w") as f:
        f.write("\n".join(j.line() for j in jobs) + "\n")
    cmd = [ENGINE, "--ll", ll, "--jobs", os.path.join(out, "jobs"), "--out", out, "--workers", str(workers),
           "--seconds", str(seconds), "--mem-gb", "4"] + list(extra)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        _, err = p.communicate(timeout=total)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
    res = []
    for k in range(len(jobs)):
        path = os.path.join(out, "%d.json" % k)
        res.append(json.load(open(path)) if os.path.exists(path) else None)
    return res, err


def known_findings(prop):
    """Lines `known: property=ID harness=NAME inputs=...` (exact) suppress; `fixed:` lines do not."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    for l in open(path) if os.path.exists(path) else []:
        g = re.match(r"known: property=(\S+) harness=(\S+) args=(\S+) inputs=(\S+) (.*)", l)
        if g and g.group(1) == prop:
            out.append(g.groups()[1:])
    return out


def check(prop, tier):
    t0 = time.time()
    thorough = tier == "thorough"
    evidence = os.path.join(HERE, "evidence")
    os.makedirs(evidence, exist_ok=True)
    jobs = list({(j.feature, j.line()): j for j in J.PROPS[prop](thorough)}.values())
    features = []
    for j in jobs:
        if j.feature not in features:
            features.append(j.feature)
    scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return decide(prop, tier, thorough, t0, evidence, jobs, features, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, thorough, t0, evidence, jobs, features, scratch):
    build_engine()
    pool = concurrent.futures.ThreadPoolExecutor(8)
    irs = {f: pool.submit(build_ir, f, scratch) for f in features}
    dev = {f: pool.submit(build_native, f, "dev", scratch) for f in features}
    rel = {f: pool.submit(build_native, f, "release", scratch) for f in features}
    irs = {f: x.result() for f, x in irs.items()}
    native = {f: (dev[f].result(), rel[f].result()) for f in features}
    built = time.time() - t0

    deadline = t0 + (600 if not thorough else 6 * 3600)
    results = {}
    errors = ""
    # One violation settles it, unless it may be a known one: the rest gets little time then.
    known = known_findings(prop)
    grace = [] if known or thorough else ["--grace", "20"]
    for f in features:
        mine = [j for j in jobs if j.feature == f]
        if grace and any(r and r["violations"] for r in results.values()):
            results.update({id(j): None for j in mine})
            continue
        left = max(30.0, deadline - time.time())
        res, err = run_engine(irs[f], mine, os.path.join(scratch, "out_" + f), os.cpu_count() or 8,
                              min(150, left) if not thorough else 3600, left, grace)
        errors += err
        for j, r in zip(mine, res):
            results[id(j)] = r

    violations, mismatches, undecided, broken, missing = [], [], [], [], []
    for j in jobs:
        r = results[id(j)]
        if r is None:
            undecided.append((j, "killed: out of time or memory"))
            continue
        if r["status"] == "inconclusive":
            why = r["reason"] or ""
            (undecided if why.startswith(("time limit", "path limit", "instruction limit", "solver")) else broken).append((j, why))
        reached = {x for x, _ in r["reach"]}
        if r["status"] == "ok":
            for x in j.need:
                if x not in reached:
                    missing.append((j, x))
        for v in r["violations"]:
            violations.append((j, v))

    # A counterexample counts when the real code, run natively, shows it as well.
    confirmed, phantom = [], []
    replays = os.path.join(evidence, "replay")
    for n, (j, v) in enumerate(violations):
        if grace and len(confirmed) >= 20:
            break
        text = case_text(j.line(), v["inputs"])
        runs = [(profile, run_native(b, text, scratch)) for profile, b in zip(("dev", "release"), native[j.feature])]
        hit = [(p, r) for p, r in runs if r[0] in ("fail", "crash", "hang")]
        if not hit:
            phantom.append((j, v, [(p, r[0]) for p, r in runs]))
            continue
        confirmed.append((j, v, hit))

    # The other direction: what the symbolic run says of a path is what the real code does.
    todo = []
    for j in jobs if not (grace and confirmed) else []:
        r = results[id(j)]
        for s in (r or {}).get("samples", []):
            todo.append((j, s))
    cap = 600 if not thorough else 3000
    if len(todo) > cap:
        step = len(todo) / cap
        todo = [todo[int(k * step)] for k in range(cap)]
    agreed = 0

    def one(x):
        j, s = x
        return x, [run_native(b, case_text(j.line(), s["inputs"]), scratch) for b in native[j.feature]]

    for (j, s), runs in pool.map(one, todo):
        for kind, notes, out in runs:
            if kind == "ok" and notes == s["notes"]:
                agreed += 1
            else:
                mismatches.append((j, s, kind, notes, out))

    code = 0
    reported = 0
    os.makedirs(replays, exist_ok=True)
    for old in os.listdir(replays):
        if old.startswith(prop + "-"):
            os.remove(os.path.join(replays, old))
    for n, (j, v, hit) in enumerate(confirmed):
        ins = ",".join("%d.%d=%d" % (i[0], i[1], i[3]) for i in v["inputs"]) or "-"
        args = ",".join(str(a) for a in j.args)
        seen = [k for k in known if (k[0], k[1], k[2]) == (j.name, args, ins)]
        if seen:
            log("KNOWN-FINDING: property=%s %s" % (prop, seen[0][3].strip()))
            continue
        path = os.path.join(replays, "%s-%d.txt" % (prop, n))
        head = "# property %s: %s (%s)\n# %s %s at line %d of the harness: %s\n# confirmed natively: %s\n# run it again: python3 %s/check.py --replay %s\nfeature %s\n" % (
            prop, j.name, j.text, v["kind"], v["msg"], v["id"], "; ".join(v["stack"][:4]),
            ", ".join("%s build: %s" % (p, r[0]) for p, r in hit), HERE, path, j.feature)
        with open(path, "w") as f:
            f.write(case_text(j.line(), v["inputs"], head))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        reported += 1
        code = 1
    if code == 0:
        why = []
        for j, v, runs in phantom:
            why.append("counterexample does not reproduce: %s %s %s %s inputs %s native %s" % (j.line(), v["kind"], v["id"], v["msg"], v["inputs"], runs))
        for j, x in missing:
            why.append("vacuous: %s never reaches mark %d" % (j.line(), x))
        for j, s, kind, notes, out in mismatches[:5]:
            why.append("symbolic and native runs differ: %s inputs %s: %s, %s vs %s\n%s" % (j.line(), s["inputs"], kind, notes, s["notes"], out[-500:]))
        undecided += [(j, "cannot encode: " + w) for j, w in broken]
        for j, w in undecided:
            log("UNDECIDED %s (%s): %s" % (j.line(), j.text, w))
        if len(undecided) * 2 > len(jobs):
            why.append("%d of %d runs undecided" % (len(undecided), len(jobs)))
        if why:
            for w in why:
                log("NO VERDICT: " + w)
            if errors:
                log(errors[-2000:])
            code = 2

    ok = [r for r in results.values() if r]
    total = lambda k: sum(r[k] for r in ok)
    funcs = sorted({f for r in ok for f in r["funcs"]})
    core = [short(f) for f in funcs]
    core = sorted({f for f in core if "unicode_intervals" in f})
    slow = sorted(((r["wall_ms"], r["job"]) for r in ok), reverse=True)[:5]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": total("paths"),
            "transitions": total("instrs"),
            "traces_validated_against_impl": agreed,
            "samples": [{"run": j.line(), "bounds": j.text, "inputs [id, occurrence, bits, value]": s["inputs"], "observed": s["notes"]} for j, s in todo[:: max(1, len(todo) // 6)]][:6],
            "meaning": "states: complete symbolic paths (each stands for all inputs that satisfy its path condition); transitions: LLVM instructions executed symbolically; traces: native runs of the real code (dev and release) that agreed with the symbolic path's model",
            "runs": [{"run": j.line(), "bounds": j.text, "status": (results[id(j)] or {}).get("status", "none"), "paths": (results[id(j)] or {}).get("paths", 0)} for j in jobs][:150],
            "runs_total": len(jobs),
            "runs_decided": sum(1 for r in ok if r["status"] in ("ok", "violation")),
            "undecided": ["%s: %s" % (j.line(), w) for j, w in undecided],
            "assertions_checked": total("asserts"),
            "assertions_decided_by_simplification": total("folded"),
            "assertions_decided_by_solver": total("by_solver"),
            "queries": total("queries"),
            "queries_sat": total("sat"),
            "queries_unsat": total("unsat"),
            "queries_unknown": total("unknown"),
            "solver_s": round(total("solver_ms") / 1000, 2),
            "slowest_query_ms": max([r["max_query_ms"] for r in ok] or [0]),
            "slowest_runs_s": [[round(a / 1000, 1), b] for a, b in slow],
            "functions_encoded_of_the_crate": core[:120],
            "functions_encoded_total": len(funcs),
            "build_s": round(built, 1),
            "solver": "Z3 4.8.12",
            "ir": "rustc (stable) --emit=llvm-ir, opt-level 2, fat LTO with the standard library, overflow checks and debug assertions on",
        },
        "assumptions": [
            "bounds as listed per run; inputs outside them are not covered by this check",
            "trusted: rustc's translation to LLVM IR (compared with native dev and release builds on every sampled path), the executor /verif/engine, Z3, the harness's reference definitions",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": reported,
    }
    with open(os.path.join(evidence, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d runs, %d paths, %d queries (%.1f s in the solver), %d native comparisons, %.1f s (build %.1f s), exit %d" % (
        prop, tier, len(jobs), total("paths"), total("queries"), total("solver_ms") / 1000, agreed, time.time() - t0, built, code))
    if os.environ.get("VERIF_TIMES"):
        for a, b in sorted(((r["wall_ms"], r["job"]) for r in ok), reverse=True)[:int(os.environ["VERIF_TIMES"])]:
            log("  %.1f s  %s  %s" % (a / 1000, b, [j.text for j in jobs if j.line() == b][0]))
    return code


def short(name):
    """A legacy- or v0-mangled symbol, roughly readable."""
    g = re.findall(r"(?<=\d)(?:[A-Za-z_][A-Za-z0-9_.$]*)", name)
    if name.startswith("_ZN"):
        parts, s = [], name[3:]
        while s and s[0].isdigit():
            n = re.match(r"\d+", s).group()
            parts.append(s[len(n):len(n) + int(n)])
            s = s[len(n) + int(n):]
        parts = [p for p in parts if not re.match(r"h[0-9a-f]{16}$", p)]
        return "::".join(parts).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::").replace("$RF$", "&").replace("$u7b$", "{").replace("$u7d$", "}").lstrip("_")
    return "::".join(g) if name.startswith("_R") and g else name


def replay(path):
    text = open(path).read()
    feature = re.search(r"^feature (\S+)", text, re.M).group(1)
    scratch = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    bad = False
    try:
        for profile in ("dev", "release"):
            kind, notes, out = run_native(build_native(feature, profile, scratch), text, scratch)
            log("%s build: %s\n%s" % (profile, kind, out))
            bad |= kind in ("fail", "crash", "hang")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


def main(argv):
    if argv[:1] == ["--setup"]:
        build_engine()
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        k = argv.index("--tier")
        tier = argv[k + 1]
        argv = argv[:k] + argv[k + 2:]
    return check(argv[0], tier)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except NoVerdict as e:
        log("NO VERDICT: %s" % e)
        code = 2
    sys.exit(code)
