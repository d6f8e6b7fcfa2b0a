#!/usr/bin/env python3
"""Decides one property: check.py ID  (VERIF_TIER quick|thorough, VERIF_SEED).

1. model-check the specification modules the property rests on (TLC, spec/mc),
2. record executions of the code in /repo (harness), driven by scenarios printed by TLC
   where the property is about histories,
3. check every recording against spec/Trace.tla (TLC).

Exit 0: held; 1: violation (VIOLATION line); 2: the check could not decide.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
MC = os.path.join(SPEC, "mc")
PROOFS = os.path.join(SPEC, "proofs")
UCD = os.path.join(SPEC, "data", "ucd_runs.json")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN  # noqa: E402


class CannotDecide(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ environment

def base_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE, check=True).stdout
    env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    # one build mode, whatever the caller's environment says
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_INCREMENTAL"] = "0"
    return env


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        files = []
        if os.path.isfile(top):
            files = [top]
        for d, dirs, names in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "__pycache__", ".git", "node_modules"))
            files += [os.path.join(d, n) for n in sorted(names) if not n.endswith((".so", ".pyc"))]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def prune(prefix, keep):
    """Keeps the newest few build directories."""
    ds = [os.path.join(WORK, d) for d in os.listdir(WORK) if d.startswith(prefix)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def cargo(env, args, what):
    p = subprocess.run(["cargo"] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        log(p.stdout.decode(errors="replace")[-6000:])
        raise CannotDecide(f"{what} does not build")


# Every build goes to a directory named after the content it was built from, so that file times
# (which copies do not keep) never decide whether a change is seen.

RUST_SOURCES = [REPO + "/crates/unicode-intervals/src", REPO + "/crates/unicode-intervals/Cargo.toml",
                REPO + "/Cargo.toml", REPO + "/Cargo.lock"]


def build_driver(env, features="", profile="release"):
    key = tree_hash(RUST_SOURCES + [VERIF + "/harness/src", VERIF + "/harness/Cargo.toml", VERIF + "/harness/Cargo.lock"])
    target = os.path.join(WORK, "rs-" + key + features + ("" if profile == "release" else profile))
    exe = os.path.join(target, "driver")
    with open(os.path.join(WORK, "build-rs.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            args = ["build", "--profile", profile, "--offline", "--manifest-path", VERIF + "/harness/Cargo.toml",
                    "--target-dir", os.path.join(target, "t")]
            try:
                cargo(env, args + (["--features", features] if features else []), "harness")
            except CannotDecide:
                if not features:
                    raise
                # the internals are no promise to users: what can be asked through queries is asked
                log("the internals look different: asking through queries only")
                cargo(env, args, "harness")
            shutil.copy2(os.path.join(target, "t", "debug" if profile == "dev" else profile, "driver"), exe)
            shutil.rmtree(os.path.join(target, "t"), ignore_errors=True)
        os.utime(target)
        prune("rs-", 4)
    return exe


PY_SOURCES = RUST_SOURCES + [REPO + "/crates/unicode-intervals-py/src", REPO + "/crates/unicode-intervals-py/Cargo.toml",
                             REPO + "/crates/unicode-intervals-py/python"]


def build_extension(env):
    """The Python package, built from /repo into its own folder; returns the folder to put on sys.path."""
    key = tree_hash(PY_SOURCES)
    target = os.path.join(WORK, "py-" + key)
    pkg = os.path.join(target, "pkg", "unicode_intervals")
    done = os.path.join(target, "done")
    with open(os.path.join(WORK, "build-py.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(done):
            shutil.rmtree(target, ignore_errors=True)
            cargo(env, ["build", "--offline", "--lib", "--manifest-path", REPO + "/crates/unicode-intervals-py/Cargo.toml",
                        "--target-dir", os.path.join(target, "t")], "Python extension")
            shutil.copytree(REPO + "/crates/unicode-intervals-py/python/unicode_intervals", pkg,
                            ignore=shutil.ignore_patterns("*.so", "__pycache__"))
            libs = [f for f in os.listdir(os.path.join(target, "t", "debug")) if f.startswith("lib") and f.endswith(".so")]
            if len(libs) != 1:
                raise CannotDecide(f"expected one extension library, found {libs}")
            shutil.copy2(os.path.join(target, "t", "debug", libs[0]), os.path.join(pkg, "unicode_intervals.abi3.so"))
            shutil.rmtree(os.path.join(target, "t"), ignore_errors=True)
            open(done, "w").close()
        os.utime(target)
        prune("py-", 3)
    return os.path.join(target, "pkg")


# ------------------------------------------------------------------ TLC

STATS = re.compile(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", re.M)
SIM = re.compile(r"The number of states generated: (\d+)")


def tlc(run, name, cwd, module, cfg, extra=(), env=None, quick=True, timeout=3600, mem="3g"):
    meta = os.path.join(run, "meta-" + name)
    out = os.path.join(run, name + ".log")
    jvm = ["-XX:+UseSerialGC"] + (["-XX:TieredStopAtLevel=1"] if quick else ["-XX:CICompilerCount=2"])
    cmd = ["java", *jvm, "-Xmx" + mem, "-Xss64m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + run,
           "-DTLA-Library=" + SPEC + ":" + MC + ":" + PROOFS, "-cp", TLA_CP,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "wb") as f:
        try:
            rc = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = None
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, encoding="utf-8", errors="replace") as f:
        text = f.read()
    m = STATS.findall(text)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    if not m and SIM.search(text):
        gen = int(SIM.search(text).group(1))
    return {"rc": rc, "out": out, "text": text, "generated": gen, "distinct": dist}


OBLIGATIONS = re.compile(r"All (\d+) obligations proved")


def prove(run, quick, mc):
    """One module of spec/proofs, proved for all sizes by tlapm."""
    t = time.time()
    d = os.path.join(run, "proof-" + mc["proof"])
    shutil.copytree(PROOFS, d)
    try:
        p = subprocess.run(["tlapm", "--strict", "--cleanfp", "--stretch", "6", "--threads", "4", "--cache-dir", d + "/cache",
                            mc["proof"] + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
    except subprocess.TimeoutExpired:
        raise CannotDecide(f"proof {mc['proof']} takes too long")
    text = p.stdout.decode(errors="replace")
    m = OBLIGATIONS.search(text)
    if p.returncode != 0 or not m:
        raise CannotDecide(f"proof {mc['proof']} fails: {text[-3000:]}")
    return {"model": mc["proof"], "generated": 0, "distinct": 0, "obligations_proved": int(m.group(1)), "scenarios": [],
            "seconds": round(time.time() - t, 1)}


def model_check(run, quick, mc):
    """One model: spec/mc/<module>.tla with <cfg>.  A failure is a fault of the specification."""
    if mc.get("proof"):
        return prove(run, quick, mc)
    t = time.time()
    extra = ["-workers", str(mc.get("workers", 1))] + mc.get("extra", [])
    r = tlc(run, "mc-" + mc["cfg"], MC, mc["module"] + ".tla", mc["cfg"] + ".cfg", extra, quick=quick,
            timeout=mc.get("timeout", 3000), mem=mc.get("mem", "4g"))
    scen = []
    for line in r["text"].splitlines():
        if line.startswith('"SCEN '):
            scen.append(line[6:-1])
    timed_out = r["rc"] is None and mc.get("open_ended")
    if r["rc"] != 0 and not timed_out:
        tail = "\n".join(x for x in r["text"].splitlines() if not x.startswith('"SCEN'))[-3000:]
        raise CannotDecide(f"model {mc['cfg']} fails: {tail}")
    if scen:
        with open(r["out"], "w") as f:  # scenarios need not be kept twice
            f.write("\n".join(x for x in r["text"].splitlines() if not x.startswith('"SCEN')))
    return {"model": mc["cfg"], "generated": r["generated"], "distinct": r["distinct"], "scenarios": scen,
            "seconds": round(time.time() - t, 1)}


REJECTED = re.compile(r'<<"REJECTED", (\d+)>>')


def check_shard(run, path, quick):
    t = time.time()
    name = os.path.splitext(os.path.basename(path))[0]
    r = tlc(run, "trace-" + name, SPEC, "Trace.tla", "Trace.cfg", ["-workers", "1"],
            env={"UCD": UCD, "TRACE": path}, quick=quick, timeout=10800 if not quick else 800,
            mem="3g")
    with open(path, "rb") as f:
        n = sum(1 for _ in f)
    res = {"path": path, "lines": n, "generated": r["generated"], "distinct": r["distinct"],
           "rejected": None, "seconds": round(time.time() - t, 1)}
    m = REJECTED.findall(r["text"])
    if m:
        k = int(m[-1])
        want = None
        i = r["text"].rfind('<<"EXPECTED", ')
        if i >= 0:
            want = r["text"][i:r["text"].find('<<"REJECTED"', i)].strip() or None
        if want and not want.startswith(f'<<"EXPECTED", {k},') and f'"EXPECTED",\n   {k},' not in want and f"{k}," not in want[:60]:
            want = None
        res.update(rejected=k, expected=want)
        return res
    if r["rc"] == 0 and r["distinct"] == n + 1:
        return res
    # The specification could not be evaluated on a line: decided only if the recording itself shows a crash.
    with open(path, encoding="utf-8") as f:
        for k, line in enumerate(f, 1):
            if '"panic":' in line:
                res.update(rejected=k, expected="a reply, not a panic")
                return res
    log(r["text"][-3000:])
    raise CannotDecide(f"TLC ended with {r['rc']} on {path}")


# ------------------------------------------------------------------ recording

def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def attribute(path):
    try:
        with open(path, encoding="utf-8", errors="replace") as f:
            ls = f.read().splitlines()
        return ls[-1] if ls else ""
    except OSError:
        return ""


def record(run, pid, plan, env, tier, seed, scen_file):
    """Drives the code; returns (summary, event) where event is a crash or hang, or None."""
    e = dict(env)
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, SHARDS=str(plan.get("shards", {}).get(tier, 8 if tier == "quick" else 64)),
             HANG_S=str(plan.get("hang_s", 20)))
    if plan.get("script"):
        cmd = [env["PYO3_PYTHON"], "-B", VERIF + "/harness/gen_driver.py", pid, run]
    elif plan.get("python"):
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        cmd = [env["PYO3_PYTHON"], "-B", VERIF + "/harness/py_driver.py", pid, run, build_extension(env)]
    else:
        cmd = [build_driver(env, plan.get("features", ""), plan.get("profile", "release")), pid, run]
        if plan.get("unoptimised") and "BRIEF" not in env:
            # a part of it without optimisations: what the compiler makes of recursion hides it
            side = os.path.join(run, "brief")
            os.makedirs(side, exist_ok=True)
            _, event = record(side, pid, dict(plan, profile="dev"), dict(env, BRIEF="1"), tier, seed, scen_file)
            shutil.rmtree(side, ignore_errors=True)
            if event:
                return {}, event
    if scen_file:
        cmd.append(scen_file)
    limit = 700 if tier == "quick" else 7200
    gb = 24

    def go(extra):
        ee = dict(e)
        ee.update(extra)
        p = subprocess.Popen(cmd, env=ee, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(gb),
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise CannotDecide("recording took too long")
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")

    rc, out, err = go({})
    stuck = os.path.join(run, "stuck.ndjson")
    if rc == 0:
        return json.loads(out.strip().splitlines()[-1]), None
    if rc == 3 and os.path.exists(stuck):
        return {}, json.loads(open(stuck, encoding="utf-8").readline())
    if rc < 0:
        careful = os.path.join(run, "careful.txt")
        rc2, _, err2 = go({"CAREFUL": careful})
        if rc2 == 3 and os.path.exists(stuck):
            return {}, json.loads(open(stuck, encoding="utf-8").readline())
        if rc2 < 0:
            return {}, {"op": "crash", "signal": -rc2, "what": attribute(careful), "stderr": err2[-400:]}
        return {}, {"op": "crash", "signal": -rc, "what": "", "stderr": err[-400:]}
    log(err[-4000:])
    raise CannotDecide(f"driver ended with {rc}")


# ------------------------------------------------------------------ reporting

def write_replay(pid, tier, seed, body, shard=None, line=None):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    n = 1 + len([f for f in os.listdir(d) if f.endswith(".json")])
    path = os.path.join(d, f"{n:03d}.json")
    body = {"property": pid, "tier": tier, "seed": seed,
            "rerun": f"VERIF_TIER={tier} VERIF_SEED={seed} /verif/bin/check.py {pid}", **body}
    if shard:
        with open(shard, encoding="utf-8") as f:
            ls = f.read().splitlines()[:line]
        keep = os.path.join(d, f"{n:03d}.ndjson")
        with open(keep, "w", encoding="utf-8") as f:
            f.write("\n".join(ls) + "\n")
        body["trace"] = keep
        body["line"] = line
        body["rejected"] = ls[-1][:20000]
        body["before"] = [x[:600] for x in ls[max(0, line - 16):line - 1]]
        body["recheck"] = f"cd /verif/spec && UCD={UCD} TRACE={keep} tlc -workers 1 -config Trace.cfg Trace.tla"
    with open(path, "w", encoding="utf-8") as f:
        json.dump(body, f, indent=1)
    return path


def samples(shards, k=4):
    out = []
    for p in shards:
        with open(p, encoding="utf-8") as f:
            for i, line in enumerate(f):
                if len(line) < 1200:
                    out.append(json.loads(line))
                    break
                if i > 200:
                    break
        if len(out) >= k:
            break
    if not out and shards:
        with open(shards[0], encoding="utf-8") as f:
            out.append(f.readline()[:1200])
    return out


def main():
    pid = sys.argv[1]
    plan = PLAN[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    quick = tier == "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    run = os.path.join(WORK, f"run-{pid}")
    lock = open(os.path.join(WORK, f"run-{pid}.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    env = base_env()
    rng = random.Random(seed)

    models = plan.get("models", {}).get(tier, plan.get("models", {}).get("quick", []))
    makers = [m for m in models if m.get("scenarios")]
    others = [m for m in models if not m.get("scenarios")]
    pool = cf.ThreadPoolExecutor(max_workers=10)
    build = pool.submit(int) if plan.get("script") else pool.submit(build_extension, env) if plan.get("python") else pool.submit(build_driver, env, plan.get("features", ""))
    made = []
    for m in makers:
        made.append(pool.submit(model_check, run, quick, dict(m, extra=[x.replace("SEED", str(seed)) for x in m.get("extra", [])])))
    scen_file = None
    done_models = [f.result() for f in made]
    build.result()
    if makers:
        scen_file = os.path.join(run, "scenarios.txt")
        with open(scen_file, "w") as f:
            for m, d in zip(makers, done_models):
                ss = sorted(set(d["scenarios"]))
                cap = m["scenarios"]
                if len(ss) > cap:
                    ss = rng.sample(ss, cap)
                d["replayed"] = len(ss)
                f.write("\n".join(ss) + "\n")
    later = [pool.submit(model_check, run, quick, m) for m in others]
    t1 = time.time()
    summary, event = record(run, pid, plan, env, tier, seed, scen_file)
    if plan.get("and_python") and event is None:
        side = os.path.join(run, "python")
        os.makedirs(side)
        _, event = record(side, pid, dict(plan, python=True, and_python=False), env, tier, seed, None)
        for f in sorted(os.listdir(side)):
            if f.startswith("shard"):
                os.rename(os.path.join(side, f), os.path.join(run, "shardpy" + f[5:]))
    t2 = time.time()
    violations = []
    if event is not None:
        violations.append(write_replay(pid, tier, seed, {"event": event}))
    shards = sorted(os.path.join(run, f) for f in os.listdir(run) if f.startswith("shard") and f.endswith(".ndjson"))
    if event is None and not shards:
        raise CannotDecide("nothing was recorded")
    results = []
    if event is None:
        results = list(cf.ThreadPoolExecutor(max_workers=8).map(lambda p: check_shard(run, p, quick), shards))
        for r in results:
            if r["rejected"]:
                violations.append(write_replay(pid, tier, seed, {"expected": (r["expected"] or "")[:20000]},
                                               r["path"], r["rejected"]))
    t3 = time.time()
    done_models += [f.result() for f in later]
    smp = samples(shards)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["distinct"] for r in results) + sum(m["distinct"] for m in done_models),
            "transitions": sum(r["generated"] for r in results) + sum(m["generated"] for m in done_models),
            "traces_validated_against_impl": summary.get("blocks", 0) if not violations else 0,
            "recorded_lines": sum(r["lines"] for r in results),
            "calls_into_the_code": summary.get("calls", 0),
            "models": [{k: v for k, v in m.items() if k != "scenarios"} for m in done_models],
            "trace_checks": [{"shard": os.path.basename(r["path"]), "lines": r["lines"], "states": r["distinct"],
                              "seconds": r["seconds"]} for r in results],
            "what": plan["what"],
            "samples": smp or [event],
        },
        "assumptions": plan.get("assumes", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    log(f"{pid}: prepared {t1 - t0:.1f} s, recorded {t2 - t1:.1f} s, checked {t3 - t2:.1f} s; "
        f"{ev['coverage']['traces_validated_against_impl']} histories, {ev['coverage']['recorded_lines']} lines, "
        f"{ev['coverage']['states']} states")
    for v in violations:
        print(f"VIOLATION property={pid} replay={v}", flush=True)
    if not os.environ.get("KEEP"):
        shutil.rmtree(run, ignore_errors=True)
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        code = main()
    except CannotDecide as x:
        log(f"cannot decide: {x}")
        code = 2
    sys.stdout.flush()
    os._exit(code)
