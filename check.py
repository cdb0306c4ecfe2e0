#!/usr/bin/env python3
"""Decides one property of scribe by symbolic execution of its compiled code.

    check.py C01              the quick check (VERIF_TIER=thorough, or --thorough: the deep one)
    check.py --replay FILE    re-runs a reported violation against the real code
    check.py --build          builds what the checks need

Everything is rebuilt from /repo's working tree into build/, which git ignores.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
import table

BUILD = os.path.join(HERE, "build")
REPO = "/repo"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
LINUX = "x86_64-unknown-linux-gnu"
ENGINE = os.path.join(BUILD, "engine", "release", "symex")
THREADS = os.cpu_count() or 4


class Broken(Exception):
    """The check cannot give an answer."""


def run(cmd, cwd=HERE, env=None, timeout=900, ok=True):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf8", "replace")
    if ok and p.returncode != 0:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), out[-6000:]))
    return p.returncode, out


class Job(threading.Thread):
    def __init__(self, f, *a):
        super().__init__(daemon=True)
        self.f, self.a, self.error, self.value = f, a, None, None
        self.start()

    def run(self):
        try:
            self.value = self.f(*self.a)
        except BaseException as e:
            self.error = e

    def result(self):
        self.join()
        if self.error:
            raise self.error
        return self.value


def build_engine():
    run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "engine"),
        env={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")})


def build_ir():
    """The whole program's IR: scribe, what it depends on, std and the harness."""
    target = os.path.join(BUILD, "ir")
    run(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "staticlib"],
        cwd=os.path.join(HERE, "harness"),
        env={"CARGO_TARGET_DIR": target, "RUSTFLAGS": "-C save-temps"})
    found = glob.glob(os.path.join(target, "release", "deps", "harness-*.lto.after-restriction.bc"))
    if not found:
        raise Broken("no IR was saved")
    return max(found, key=os.path.getmtime)


def build_replay(profile):
    target = os.path.join(BUILD, "replay")
    env = {"CARGO_TARGET_DIR": target}
    if profile == "asan":
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "asan")
        env["RUSTUP_TOOLCHAIN"] = "nightly-" + LINUX
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        run(["cargo", "build", "--offline", "--bin", "replay", "--target", LINUX],
            cwd=os.path.join(HERE, "harness"), env=env)
        return os.path.join(BUILD, "asan", LINUX, "debug", "replay")
    args = [] if profile == "dev" else ["--profile", profile]
    run(["cargo", "build", "--offline", "--bin", "replay"] + args, cwd=os.path.join(HERE, "harness"), env=env)
    return os.path.join(target, "debug" if profile == "dev" else profile, "replay")


def llvm(tool):
    _, out = run(["rustc", "--print", "sysroot"])
    return os.path.join(out.strip().splitlines()[-1], "lib", "rustlib", LINUX, "bin", tool)


def lower(bitcode, entries, out):
    """Reduces the program to what the entries reach, as textual IR for the engine."""
    a, b = out + ".a.bc", out + ".b.bc"
    run([llvm("opt"), "-passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(entries), bitcode, "-o", a])
    run([llvm("opt"), "-passes=default<O2>,scalarizer,globaldce", "-vectorize-loops=false", "-vectorize-slp=false", a, "-o", b])
    run([llvm("llvm-dis"), b, "-o", out])
    os.remove(a)
    os.remove(b)


def native(binary, entry, values, timeout=30):
    """Runs an entry on the given values. Returns (status, observations, output)."""
    tmp = tempfile.mkdtemp(prefix="scratch-", dir=BUILD)
    try:
        e = dict(os.environ, TMPDIR=tmp, RUST_BACKTRACE="0")
        try:
            p = subprocess.run([binary, entry, ",".join(values)], env=e, cwd=tmp, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = p.stdout.decode("utf8", "replace"), p.returncode
        except subprocess.TimeoutExpired as t:
            out, rc = (t.stdout or b"").decode("utf8", "replace"), "timeout"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
    status = {0: "done", 10: "check", 3: "assume", 4: "no entry", "timeout": "hang"}.get(rc, "crash")
    return status, obs, out


def agrees(violation, status, out):
    """Does a native run show the violation the engine predicted?"""
    if violation["kind"] == "check":
        return status == "check"
    if violation["kind"] == "limit":
        return status == "hang"
    return status == "crash"


def confirm(violation, entry):
    """The profiles in which the real code shows the violation, each with its output."""
    values = [v for _, v in violation["inputs"]]
    shown = []
    profiles = ["dev", "plain"]
    for profile in profiles:
        status, _, out = native(build_replay(profile), entry, values)
        if status in ("check", "crash", "hang"):
            shown.append((profile, status, out))
    if not shown and violation["kind"] in ("memory", "trap"):
        status, _, out = native(build_replay("asan"), entry, values)
        if status in ("check", "crash", "hang"):
            shown.append(("asan", status, out))
    return shown


def known_findings(prop):
    """Committed findings: lines 'finding: property=ID entry=NAME check="MESSAGE" what'."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) entry=(\S+) check="([^"]*)" (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def check(prop, tier, seed):
    t0 = time.time()
    spec = table.CHECKS[prop]
    entries = spec[tier]
    names = [e["entry"] for e in entries]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    work = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=BUILD)
    try:
        engine = Job(build_engine)
        bitcode = build_ir()
        ir = os.path.join(work, "program.ll")
        replay = Job(build_replay, "dev")
        lower(bitcode, names, ir)
        engine.result()
        built = time.time() - t0
        budget = spec.get("budget", {}).get(tier, 480 if tier == "quick" else 3600)
        results, violations, errors = [], [], []
        for i, e in enumerate(entries):
            left = budget - (time.time() - t0 - built)
            share = max(5, min(left, e.get("time", max(90, left / (len(entries) - i)))))
            out = os.path.join(work, e["entry"] + ".json")
            dump = os.path.join(work, "queries-" + e["entry"])
            cross = ["--dump-queries", "40", "--dump-every", "7", "--dump-dir", dump] if tier == "thorough" else []
            p = subprocess.run([ENGINE, "--ir", ir, "--entry", e["entry"], "--threads", str(THREADS), "--time", str(int(share)),
                                "--samples", str(e.get("samples", 24)), "--max-steps", str(e.get("steps", 400000000)),
                                "--out", out] + cross, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if not os.path.exists(out):
                raise Broken("the engine failed on %s: %s" % (e["entry"], p.stdout.decode("utf8", "replace")[-3000:]))
            r = json.load(open(out))[0]
            results.append((e, r))
            for v in r["violations"]:
                violations.append((e, v))
            if r["violations"]:
                break
        # A sample of the solver's answers against those of two other solvers.
        crossed = cross_check(glob.glob(os.path.join(work, "queries-*", "*.smt2")), errors) if tier == "thorough" else None
        replay = replay.result()
        lines, confirmed, validated, status = [], [], 0, 0
        # Violations, confirmed against the real code.
        for e, v in violations:
            shown = confirm(v, e["entry"])
            if not shown:
                errors.append("%s: the engine found %r, which the real code does not show on inputs %s (%s)" % (
                    e["entry"], v["msg"], [x[1] for x in v["inputs"]], " < ".join(v["trace"][:6])))
                continue
            known = [k for k in known_findings(prop) if k[0] == e["entry"] and k[1] == v["msg"]]
            d = os.path.join(BUILD, "violations")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (prop, e["entry"], len(confirmed) + 1))
            json.dump({"property": prop, "entry": e["entry"], "violated": v["msg"], "kind": v["kind"],
                       "inputs": v["inputs"], "trace": v["trace"],
                       "confirmed": [{"profile": p, "status": s, "output": o[-3000:]} for p, s, o in shown]},
                      open(path, "w"), indent=1)
            if known:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[0][2]))
                continue
            confirmed.append(path)
            lines.append("%s: %s (%s), shown by the %s build; inputs %s" % (
                e["entry"], v["msg"], v["kind"], "/".join(p for p, _, _ in shown), [x[1] for x in v["inputs"]]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        # The engine's runs against native ones.
        for e, r in results:
            for s in r["samples"]:
                st, obs, out = native(replay, e["entry"], [x[1] for x in s["inputs"]])
                if st == "done" and obs == s["obs"]:
                    validated += 1
                elif st == "done" or not confirmed:
                    errors.append("%s: native run differs from the engine's on %s: %s" % (e["entry"], [x[1] for x in s["inputs"]], out[-500:]))
            for m in r["engine_errors"]:
                errors.append("%s: %s" % (e["entry"], m[:1500]))
            for m in sorted(set(r["unknowns"])):
                errors.append("%s: the solver gave no answer (%s)" % (e["entry"], m))
            if r["exhaustive"] and not r["violations"]:
                missing = [c for c in e["covers"] if str(c) not in r["covers"]]
                if missing:
                    errors.append("%s: nothing reached %s; the check would be vacuous" % (e["entry"], missing))
        if confirmed:
            status = 1
        elif errors:
            status = 2
        evidence(prop, tier, seed, spec, results, validated, confirmed, errors, built, time.time() - t0, crossed)
        for e, r in results:
            print("%s: %d paths%s, %d queries (%d sat, %d unsat) in %.1f s of solver time, %.1f s" % (
                r["entry"], r["paths"], "" if r["exhaustive"] else " (NOT exhaustive: stopped early)", r["queries"], r["sat"], r["unsat"],
                r["solver_s"], r["wall_s"]))
        for l in lines:
            print(l)
        for m in errors[:10]:
            print("ERROR: " + m)
        print("%s %s: %s; built in %.0f s, %d native runs agree, %.0f s in all" % (
            prop, tier, {0: "held on everything explored", 1: "VIOLATED", 2: "no answer"}[status], built, validated, time.time() - t0))
        sys.stdout.flush()
        return status
    finally:
        shutil.rmtree(work, ignore_errors=True)


def cross_check(files, errors):
    """Has cvc5 and another z3 decide queries again; the file names end in the answer."""
    counts = {"queries": len(files), "cvc5": 0, "z3-new": 0, "gave_up": 0}
    def one(path):
        expected = path.rsplit("-", 1)[1].split(".")[0]
        out = []
        for name, cmd in (("cvc5", ["cvc5", "--tlimit=20000", path]), ("z3-new", ["z3-new", "-T:20", path])):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                answer = p.stdout.decode("utf8", "replace").split()[:1]
            except (subprocess.TimeoutExpired, OSError):
                answer = []
            out.append((name, path, expected, answer[0] if answer else ""))
        return out
    with concurrent.futures.ThreadPoolExecutor(THREADS) as pool:
        for out in pool.map(one, sorted(files)):
            for name, path, expected, answer in out:
                if answer == expected:
                    counts[name] += 1
                elif answer in ("sat", "unsat"):
                    errors.append("%s answers %s to %s" % (name, answer, os.path.basename(path)))
                else:
                    counts["gave_up"] += 1
    return counts


def evidence(prop, tier, seed, spec, results, validated, confirmed, errors, built, wall, crossed=None):
    def total(k):
        return sum(r[k] for _, r in results)
    functions = {}
    for _, r in results:
        for f in r["functions"]:
            if f["file"].startswith(REPO) or "/repo/" in f["file"]:
                k = "%s:%d %s" % (os.path.relpath(f["file"], REPO), f["line"], f["name"])
                functions[k] = max(functions.get(k, 0), f["lines"])
    samples = []
    for e, r in results:
        for s in r["samples"][:2]:
            samples.append({"entry": e["entry"], "inputs": [x[1] for x in s["inputs"]], "observed": s["obs"][:6]})
    coverage = {
        "states": total("paths"),
        "transitions": total("steps"),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": bool(results) and all(r["exhaustive"] for _, r in results) and len(results) == len(spec[tier]),
        "rule": "states are completed symbolic paths, each standing for every input that takes it; transitions are IR instructions executed on them",
        "infeasible_paths": total("infeasible"),
        "assertions_on_paths": total("checks"),
        "assertions_put_to_the_solver": total("checks_symbolic"),
        "queries": total("queries"),
        "queries_answered_from_cache": total("cached"),
        "queries_sat": total("sat"),
        "queries_unsat": total("unsat"),
        "queries_unknown": total("unknown"),
        "solver_s": round(total("solver_s"), 3),
        "longest_query_s": max([r["max_query_s"] for _, r in results] or [0]),
        "functions_encoded": sorted(functions),
        "functions_executed_in_all": max([r["functions_executed"] for _, r in results] or [0]),
        "entries": [{"entry": e["entry"], "bounds": e["bounds"], "paths": r["paths"], "exhaustive": r["exhaustive"],
                     "pending": r["pending"], "symbolic_inputs": r["max_inputs"], "covers": r["covers"],
                     "queries": r["queries"], "solver_s": r["solver_s"], "wall_s": r["wall_s"]} for e, r in results],
        "build_s": round(built, 1),
        "sources": digest([os.path.join(REPO, "src"), os.path.join(HERE, "harness", "src")]),
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
           "assumptions": table.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    if crossed:
        coverage["queries_decided_again"] = crossed
    if errors:
        coverage["errors"] = errors[:10]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def replay_file(path):
    d = json.load(open(path))
    shown = confirm(d, d["entry"])
    for p, s, o in shown:
        print("%s build: %s\n%s" % (p, s, o))
    print("reproduced" if shown else "not reproduced")
    return 1 if shown else 0


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
        args.remove("--thorough")
    if "--quick" in args:
        tier = "quick"
        args.remove("--quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if args[:1] == ["--build"]:
            os.makedirs(BUILD, exist_ok=True)
            lock = open(os.path.join(BUILD, "lock"), "w")
            fcntl.flock(lock, fcntl.LOCK_EX)
            j = Job(build_engine)
            build_ir()
            build_replay("dev")
            j.result()
            return 0
        if args[:1] == ["--replay"]:
            return replay_file(args[1])
        return check(args[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    except Broken as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
