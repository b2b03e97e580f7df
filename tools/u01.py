#!/usr/bin/env python3
"""The check of U01: real workloads under Miri, AddressSanitizer and ThreadSanitizer.

Only reports of these tools (undefined behaviour, memory errors, data races), violated unsafe
preconditions and leaked stores count; what the calls answer is the business of the other checks."""
import json, os, re, subprocess, sys, time, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
DEEP = TIER == "thorough"
T = "x86_64-unknown-linux-gnu"
CFG = "--cfg patriecia_verif -A warnings"
NIGHTLY = "+nightly"
start = time.time()
os.makedirs(f"{ROOT}/replays", exist_ok=True)
os.makedirs(f"{ROOT}/evidence", exist_ok=True)

def finish(code, viol=None, why=None, cov=None):
    ev = {"property": "U01", "tier": TIER, "seed": SEED, "level": "exploration",
          "coverage": cov or {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": []},
          "assumptions": ["a clean run says nothing of paths the workloads do not reach",
                          "Miri interprets single-threaded and hand-over workloads only (parking_lot's futex wait is not supported by it)"],
          "wall_s": round(time.time() - start, 1), "violations": 1 if viol else 0}
    json.dump(ev, open(f"{ROOT}/evidence/U01.json", "w"), indent=1)
    if viol:
        path = f"{ROOT}/replays/U01-{SEED}.txt"
        open(path, "w").write(viol + "\n")
        print(viol[:1500])
        print(f"VIOLATION property=U01 replay={path}")
    elif why:
        print(f"INCONCLUSIVE property=U01 {why}")
    else:
        c = ev["coverage"]
        print(f"U01: no report in {c['evaluations']} workloads ({ev['wall_s']} s)")
    sys.exit(code)

RULE = ("A case is one workload under one tool: small workloads over tree, restore, trie and hand-over between threads under Miri; "
        "the cases of every other monitor under AddressSanitizer; the concurrent cases (shared store, shared database, shared tries) "
        "under ThreadSanitizer with an instrumented standard library. Distinct: by the fingerprint of the history, per tool and monitor.")

def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
    e.pop("RUSTFLAGS", None); e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(kw)
    return e

def build(what):
    d = f"{ROOT}/target/{what}"
    if what == "asan":
        cmd = ["cargo", NIGHTLY, "build", "--offline", "--target", T]
        e = env(CARGO_TARGET_DIR=d, RUSTFLAGS=f"{CFG} -Zsanitizer=address")
    elif what == "tsan":
        cmd = ["cargo", NIGHTLY, "build", "--offline", "-Zbuild-std", "--target", T]
        e = env(CARGO_TARGET_DIR=d, RUSTFLAGS=f"{CFG} -Zsanitizer=thread")
    else:
        cmd = ["cargo", NIGHTLY, "miri", "run", "--offline", "--", "interp", "1", "0", "1"]
        e = env(CARGO_TARGET_DIR=d, MIRIFLAGS="-Zmiri-disable-isolation")
    p = subprocess.run(cmd, cwd=f"{ROOT}/harness", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    return what, p.returncode, p.stdout

try:
    with cf.ThreadPoolExecutor(3) as ex:
        for what, rc, out in ex.map(build, ["miri", "asan", "tsan"]):
            if rc != 0:
                # compile-time evaluation can itself meet undefined behaviour, but that is no execution
                print(out[-3000:])
                finish(2, why=f"the {what} build fails")
except subprocess.TimeoutExpired:
    finish(2, why="a build took too long")

IGNORED = ("stack-overflow", "out-of-memory", "allocation-size-too-big", "requested allocation size")

def report(err):
    """The part of the output that is a tool's report, or None."""
    m = re.search(r"^.*(?:ERROR: AddressSanitizer|WARNING: ThreadSanitizer|unsafe precondition\(s\) violated|error: Undefined Behavior|error: memory leaked|error: the main thread terminated|error: deadlock).*$", err, re.M)
    if not m or any(x in m.group(0) for x in IGNORED):
        return None
    if "main thread terminated" in m.group(0) or "deadlock" in m.group(0):
        return None
    return err[m.start():m.start() + 6000]

def miri(i):
    secs = 300 if DEEP else 55
    e = env(CARGO_TARGET_DIR=f"{ROOT}/target/miri", MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={SEED * 100 + i}")
    cmd = ["cargo", NIGHTLY, "miri", "run", "--offline", "--quiet", "--", "interp", str(SEED * 1000 + i), "100000", str(secs)]
    try:
        p = subprocess.run(cmd, cwd=f"{ROOT}/harness", env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 240)
    except subprocess.TimeoutExpired as x:
        n = (x.stderr or b"").decode(errors="replace").count("CASE ")
        return {"tool": "miri", "id": "U01", "cases": max(0, n - 1), "distinct": max(0, n - 1), "ev": {}, "ended": "time"}
    r = {"tool": "miri", "id": "U01", "cases": p.stderr.count("CASE "), "ev": {}, "rc": p.returncode}
    r["distinct"] = r["cases"]
    rep = report(p.stderr)
    if rep:
        last = re.findall(r"CASE (\d+)", p.stderr)
        r["viol"] = f"Miri, workload {last[-1] if last else '?'} (pv case U01 {last[-1] if last else '?'} under cargo miri run):\n{rep}"
    elif "VIOLATED" in p.stdout:
        r["viol"] = "Miri: " + p.stdout[p.stdout.index("VIOLATED"):][:2000]
    elif p.returncode == 0:
        r["ev"] = json.loads(p.stdout.strip().splitlines()[-1])["ev"]
    else:
        r["odd"] = (p.stdout + p.stderr)[-1500:]
    return r

def native(tool, pid, secs):
    f = f"{ROOT}/replays/.inflight-{tool}-{pid}"
    exe = f"{ROOT}/target/{tool}/{T}/debug/pv"
    e = env(PV_SECS=str(secs), VERIF_SEED=str(SEED + 7), VERIF_TIER="quick",
            ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=1",
            TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    try:
        p = subprocess.run([exe, "worker", pid, f], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 200)
    except subprocess.TimeoutExpired:
        return {"tool": tool, "id": pid, "cases": 0, "distinct": 0, "ev": {}, "ended": "time"}
    finally:
        if os.path.exists(f): os.remove(f)
    r = {"tool": tool, "id": pid, "cases": 0, "distinct": 0, "ev": {}, "rc": p.returncode}
    rep = report(p.stderr)
    if rep:
        r["viol"] = f"{tool}, cases of {pid} with VERIF_SEED {SEED + 7}:\n{rep}"
    elif p.returncode == 0:
        o = json.loads(p.stdout.strip().splitlines()[-1])
        r.update(cases=o["evaluations"], distinct=o["distinct"], ev=o["ev"])
        if pid == "U01" and o["viol"]:
            r["viol"] = f"{tool}, workload {o['viol']['seed']}: {o['viol']['msg']}"
        elif o["harness"]:
            r["odd"] = str(o["harness"])
    else:
        r["odd"] = p.stderr[-1500:]
    return r

res = []
def stop_on(rs):
    for r in rs:
        res.append(r)
        if "viol" in r:
            finish(1, viol=r["viol"], cov=cov())

def cov():
    per = {}
    for r in res:
        k = f"{r['tool']}:{r['id']}"
        d = per.setdefault(k, {"cases": 0})
        d["cases"] += r["cases"]
        for a, b in r["ev"].items():
            d[a] = d.get(a, 0) + b
    for k, d in per.items():   # keep it readable
        if not k.endswith(":U01") and not k.startswith("tsan"):
            per[k] = {"cases": d["cases"]}
    return {"evaluations": sum(r["cases"] for r in res), "distinct_nontrivial": sum(r["distinct"] for r in res), "rule": RULE,
            "samples": [{"tool": r["tool"], "monitor": r["id"], "cases": r["cases"], "observed": r["ev"]} for r in res[:3]],
            "by_tool_and_monitor": per}

k = 10 if DEEP else 1
# races first, then memory errors, each with the machine to itself; then the interpreter
stop_on(native("tsan", i, s * k) for i, s in [("J17", 12), ("P09", 6), ("P03", 6), ("U01", 4)])
A = ["U01", "J12", "J13"] + [f"J{i:02}" for i in range(1, 20) if i not in (12, 13)] + [f"P{i:02}" for i in range(1, 14)] + ["S01"]
stop_on(native("asan", i, 2 * k) for i in A)
with cf.ThreadPoolExecutor(8) as ex:
    stop_on(ex.map(miri, range(8)))
odd = [r for r in res if "odd" in r]
if odd:
    print(odd[0]["tool"], odd[0]["id"], odd[0]["odd"])
    finish(2, why=f"{len(odd)} runs gave no verdict", cov=cov())
for t in ("tsan", "asan", "miri"):
    if sum(r["cases"] for r in res if r["tool"] == t) == 0:
        finish(2, why=f"nothing was observed under {t}", cov=cov())
finish(0, cov=cov())
