#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Builds the harness crate (with /repo's current source) to LLVM IR, lets the symbolic engine `lsx`
explore every path of the property's harnesses with Z3 deciding branches and assertions, replays every
counterexample natively, validates explored paths against native runs, and writes evidence/<id>.json.

exit 0: held on everything explored    exit 1 + VIOLATION line: broken    exit 2: no answer
"""
import json, os, re, resource, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vlib"))
from props import PROPS  # noqa: E402

REPO = "/repo"
T0 = time.time()
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
NATIVE = "1.95.0"
TGT = os.path.join(V, "harness", "target")
LSX = os.path.join(V, "engine", "target", "release", "lsx")


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def die(msg):
    log("ERROR (no answer):", msg)
    sys.exit(2)


def run(cmd, env=None, cwd=None, timeout=600, **kw):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    r = run(["cargo", "build", "--release", "--offline"], {"RUSTUP_TOOLCHAIN": NIGHTLY}, os.path.join(V, "engine"))
    if r.returncode:
        return "engine build failed:\n" + r.stdout[-3000:]


def build_ir(feature, out):
    env = {"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": TGT, "RUSTFLAGS": "-Z merge-functions=disabled -C no-vectorize-loops -C no-vectorize-slp"}
    cwd = os.path.join(V, "harness")
    # save-temps leaves the bitcode of every earlier build in place: take the one this build wrote
    t = time.time() - 1
    os.utime(os.path.join(cwd, "src", "lib.rs"))
    r = run(["cargo", "rustc", "--offline", "--locked", "--profile", "ir", "--lib", "--crate-type", "cdylib", "--features", feature,
             "--", "-C", "save-temps", "--emit=link"], env, cwd)
    if r.returncode:
        return "IR build failed:\n" + r.stdout[-4000:]
    bcs = []
    for d, _, fs in os.walk(os.path.join(TGT, "ir")):
        for f in fs:
            if re.search(r"vh\..*cgu\.0\.rcgu\.bc$", f):
                p = os.path.join(d, f)
                if os.path.getmtime(p) >= t:
                    bcs.append((os.path.getmtime(p), p))
    if not bcs:
        return "no bitcode produced"
    bc = max(bcs)[1]
    root = run(["rustc", "--print", "sysroot"], {"RUSTUP_TOOLCHAIN": NIGHTLY}).stdout.strip()
    dis = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis")
    r = run([dis, bc, "-o", out])
    if r.returncode:
        return "llvm-dis failed: " + r.stdout[-1000:]


def build_native(profile, feature):
    env = {"RUSTUP_TOOLCHAIN": NATIVE, "CARGO_TARGET_DIR": TGT}
    r = run(["cargo", "build", "--offline", "--locked", "--profile", profile, "--bin", "replay", "--features", feature], env, os.path.join(V, "harness"))
    if r.returncode:
        return f"native build ({profile}) failed:\n" + r.stdout[-4000:]


def replay_bin(profile):
    return os.path.join(TGT, profile, "replay")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(profile, harness, hexin, timeout=20):
    """-> (class, message) of the native run"""
    try:
        r = subprocess.run([replay_bin(profile), "run", harness, hexin], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "hang", f"no result within {timeout} s"
    out = r.stdout.decode(errors="replace").strip()
    if r.returncode in (0, 3) and out:
        c, _h, *m = out.split(" ", 2)
        return c, (m[0] if m else "")
    err = r.stderr.decode(errors="replace").strip()[-300:]
    return "crash", f"exit {r.returncode} {err}"


BAD = ("panic", "assert", "fail", "crash", "hang")


def main():
    if sys.argv[1] == "--setup":  # only shows that the toolchain works: every check builds what it needs
        e = build_engine()
        if e:
            die(e)
        sys.exit(0)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    feature = P["feature"]
    work = os.path.join(V, "evidence", "work", pid)
    os.makedirs(work, exist_ok=True)
    ll = os.path.join(work, "module.ll")
    errs = []
    th = [threading.Thread(target=lambda f=f, a=a: errs.append(f(*a))) for f, a in
          [(build_engine, ()), (build_ir, (feature, ll)), (build_native, ("nd", feature))]]
    for t in th:
        t.start()
    for t in th:
        t.join()
    errs = [e for e in errs if e]
    if errs:
        die("\n".join(errs))
    log("built engine, IR and native replayer")
    table = run([replay_bin("nd"), "list"]).stdout.split()
    hs = [h for h in table if h.startswith("h_") or (tier == "thorough" and h.startswith("t_"))]
    if "--only" in sys.argv:  # development aid
        rx = sys.argv[sys.argv.index("--only") + 1]
        hs = [h for h in table if re.fullmatch(rx, h)]
    opts = P.get("opts", {})
    budget = P.get("time", 300 if tier == "quick" else 3000)
    # group harnesses by their option set so that the module is parsed once per group
    groups = {}
    for h in hs:
        o = dict(P.get("defaults", {}))
        for pat, extra in opts.items():
            if re.fullmatch(pat, h):
                o.update(extra)
        groups.setdefault(json.dumps(o, sort_keys=True), []).append(h)
    results = []
    meta = {}
    for k, names in groups.items():
        o = json.loads(k)
        out = os.path.join(work, f"res{len(results)}.json")
        cmd = [LSX, ll, "--harness", ",".join(names), "--threads", str(o.get("threads", 8)), "--solver", o.get("solver", "default"),
               "--out", out, "--time", str(o.get("time", budget)), "--total", str(max(30, (3300 if tier == "thorough" else 760) - (time.time() - T0))), "--query-ms", str(o.get("query_ms", 3000)),
               "--max-steps", str(o.get("steps", 3000000)), "--src", REPO + "/", "--max-traces", str(o.get("traces", 1200))]
        if o.get("audit") or tier == "thorough":
            cmd.append("--audit")
        dump = os.path.join(work, "smt2")
        if o.get("dump"):
            os.makedirs(dump, exist_ok=True)
            cmd += ["--dump", dump]
        try:
            r = run(cmd, timeout=3500 if tier == "thorough" else 850)
        except subprocess.TimeoutExpired:
            die(f"engine timed out on {names}")
        if r.returncode or not os.path.exists(out):
            die(f"engine failed ({r.returncode}) on {names}:\n" + r.stdout[-3000:])
        res = json.load(open(out))
        os.unlink(out)
        meta["z3"] = res["z3"]
        meta["functions_in_module"] = res["functions_in_module"]
        results += res["harnesses"]
    os.unlink(ll)
    if "-v" in sys.argv:
        for r in results:
            log(f"  {r['harness']:28} paths={r['paths']} cut={r['assume_cut']} q={r['q_sat']}+{r['q_unsat']}+{r['q_unknown']} solver={r['solver_s']:.1f} wall={r['wall_s']:.1f} lines={r['lines_executed']} viol={len(r['violations'])} inc={r['inconclusive']}")
    log(f"engine finished: {len(results)} harnesses, {sum(r['paths'] for r in results)} paths")

    # --- counterexamples: only what reproduces natively is reported
    confirmed, unconfirmed, inconc = [], [], []
    need_nr = any(r["violations"] for r in results)
    if need_nr:
        e = build_native("nr", feature)
        if e:
            die(e)
    for r in results:
        for v in r["violations"]:
            got = {p: replay(p, r["harness"], v["input"]) for p in ("nd", "nr")}
            bad = {p: g for p, g in got.items() if g[0] in BAD}
            (confirmed if bad else unconfirmed).append((r["harness"], v, got))
        for k, n in r["inconclusive"].items():
            inconc.append(f"{r['harness']}: {k} (x{n})")
        if not r["violations"]:
            miss = set(r["expects"]) - set(r["covers"])
            if miss:
                inconc.append(f"{r['harness']}: no path reaches {sorted(miss)}: the harness would hold vacuously")
            if r["paths"] == 0:
                inconc.append(f"{r['harness']}: no path explored")

    # --- validate explored paths against native runs of the same inputs
    lines, want = [], []
    for r in results:
        for inp, o, h in r["traces"]:
            if o in ("ok",):
                lines.append(f"{r['harness']} {inp}")
                want.append((o, h))
    mism = []
    try:
        out = subprocess.run([replay_bin("nd"), "batch"], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300, preexec_fn=limits).stdout.split("\n")
    except subprocess.TimeoutExpired:
        out = []
    validated = 0
    for l, w, g in zip(lines, want, out + [""] * len(lines)):
        if g.split() == list(w):
            validated += 1
        else:
            mism.append((l, w, g))
    log(f"native validation: {validated}/{len(lines)} paths agree")

    # --- known findings
    kf = [f for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if f["property"] == pid]
    for f in kf:
        c, m = replay("nd", f["harness"], f["input"])
        if c in BAD:
            print(f"KNOWN-FINDING: property={pid} {f['id']}: {f['what']} [{f['harness']} {f['input']} -> {c} {m}]", flush=True)
        else:
            log(f"note: listed finding {f['id']} no longer fails on its input")

    # --- evidence
    funcs = sorted({f for r in results for f in r["functions"]})
    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    samples = []
    for r in results[:: max(1, len(results) // 8)]:
        if r["traces"]:
            t = r["traces"][(seed * 7) % len(r["traces"])]
            samples.append({"harness": r["harness"], "input_hex": t[0], "outcome": t[1], "observation_hash": t[2]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"), "traces_validated_against_impl": validated, "samples": samples,
            "meaning": "states = complete symbolic paths (each stands for every input satisfying its path condition); transitions = branch, concretisation and assertion decisions taken on new suffixes",
            "exhaustive_within_bounds": not inconc and all(r["complete"] for r in results),
            "bounds": P["bounds"], "outside_bounds": P.get("outside", ""),
            "solver": {"name": "Z3 " + meta.get("z3", "?"), "queries_sat": tot("q_sat"), "queries_unsat": tot("q_unsat"), "queries_unknown": tot("q_unknown"),
                       "answered_from_cache": tot("q_cached"), "branches_decided_by_one_byte_domains": tot("q_domain"), "domain_decisions_audited_by_solver": tot("audits"), "solver_seconds": round(tot("solver_s"), 2),
                       "slowest_query_ms": max([r["max_query_ms"] for r in results] or [0])},
            "assertions_discharged_by_solver": tot("asserts_discharged"), "assertion_decisions": tot("assert_sites_reached"),
            "paths_cut_by_assumptions": tot("assume_cut"), "llvm_instructions_executed": tot("instructions"),
            "repo_functions_encoded": funcs, "repo_function_count": len(funcs), "repo_source_lines_executed_max": max([r["lines_executed"] for r in results] or [0]),
            "harnesses": [{k: r[k] for k in ("harness", "complete", "paths", "assume_cut", "q_sat", "q_unsat", "q_unknown", "asserts_discharged", "max_symbolic_bytes", "solver_s", "wall_s", "covers")} for r in results],
        },
        "assumptions": P.get("assumptions", []) + [
            "LLVM IR produced by rustc nightly (fat LTO, overflow and debug assertions on) stands for the code; native replays and path validation use " + NATIVE,
            "the engine's IR semantics, cross-checked on this run against native execution of the explored paths",
            "memory allocation succeeds"],
        "wall_s": round(time.time() - T0, 1), "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

    if confirmed:
        rdir = os.path.join(V, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (h, v, got) in enumerate(confirmed[:10]):
            p = os.path.join(rdir, f"{pid}-{i}.json")
            json.dump({"property": pid, "harness": h, "feature": feature, "input_hex": v["input"], "engine": v, "native": got,
                       "replay": f"cd /verif/harness && RUSTUP_TOOLCHAIN={NATIVE} CARGO_NET_OFFLINE=true cargo run --offline --profile nd --bin replay --features {feature} -- run {h} {v['input']}"}, open(p, "w"), indent=1)
            log(f"{h}: {v['msg']} input={v['input']} native debug={got['nd']} release={got['nr']}")
            print(f"VIOLATION property={pid} replay={os.path.relpath(p, V)}", flush=True)
        sys.exit(1)
    for h, v, got in unconfirmed:
        inconc.append(f"{h}: counterexample {v} does not reproduce natively: {got}")
    if mism:
        inconc.append(f"{len(mism)} explored paths behave differently natively, e.g. {mism[0]}")
    if inconc:
        die("\n  ".join(["inconclusive:"] + inconc[:40]))
    log(f"property {pid} held on everything explored")


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        die(repr(e))
