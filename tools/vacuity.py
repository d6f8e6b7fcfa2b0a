#!/usr/bin/env python3
"""Is the trace specification able to say no?  For every kind of line in the recordings of a run kept with
KEEP=1 (work/run-*), changes one recorded reply (a number by one, an element left out or repeated, a letter of
a text, a field missing) and checks that Trace.tla rejects exactly that line.

vacuity.py [PER_OP]      prints one row per operation; exit 1 if some change is accepted.

Replies that are bounds or may be right in several ways are expected to be accepted sometimes (LOOSE).
"""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = VERIF + "/spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PER = int(sys.argv[1]) if len(sys.argv) > 1 else 4
ARGS = {"op", "q", "h", "t", "g", "x", "xs", "n", "k", "s", "v", "w", "inc", "exc", "cats", "a", "b", "ds", "order", "counts",
        "from", "to", "ks", "f", "min", "max", "rev", "full", "i", "any", "kind", "run", "back", "pre", "both", "what"}
rng = random.Random(7)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
        yield path, "drop"
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from leaves(x[i], path + (i,))
        if x:
            yield path, "short"
            yield path, "twice"
    elif isinstance(x, bool) or x is None:
        return
    elif isinstance(x, int):
        yield path, "inc"
        yield path, "dec"
    elif isinstance(x, str):
        yield path, "text"


def change(e, path, how):
    e = json.loads(json.dumps(e))
    p = e
    for k in path[:-1]:
        p = p[k]
    last = path[-1]
    if how == "inc":
        p[last] += 1
    elif how == "dec":
        p[last] -= 1
    elif how == "short":
        p[last] = p[last][:-1]
    elif how == "twice":
        p[last] = p[last] + [p[last][-1]]
    elif how == "text":
        p[last] = p[last][:-1] + ("y" if p[last][-1:] != "y" else "z")
    elif how == "drop":
        p[last] = {"panic": "x"}
    return e


def judge(lines):
    with tempfile.TemporaryDirectory() as d:
        t = d + "/t.ndjson"
        with open(t, "w", encoding="utf-8") as f:
            f.write("".join(lines))
        p = subprocess.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss64m", "-Xmx2g", "-Dfile.encoding=UTF-8",
                            f"-DTLA-Library={SPEC}:{SPEC}/mc", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d + "/m",
                            "-workers", "1", "-config", "Trace.cfg", "Trace.tla"], cwd=SPEC,
                           env=dict(os.environ, UCD=SPEC + "/data/ucd_runs.json", TRACE=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        m = re.findall(r'<<"REJECTED", (\d+)>>', p.stdout.decode(errors="replace"))
        return ("rejected" if m and int(m[-1]) == len(lines) else "earlier" if m else "accepted" if p.returncode == 0 else "error"), p.stdout.decode(errors="replace")[-600:]


def main():
    found = {}
    for path in sorted(glob.glob(VERIF + "/work/run-*/shard*.ndjson")):
        with open(path, encoding="utf-8") as f:
            lines = f.readlines()
        if sum(map(len, lines)) > 60_000_000:
            lines = lines[:4000]
        for i, line in enumerate(lines[:6000]):
            if len(line) > 200_000:
                continue
            op = re.search(r'"op": ?"(\w+)"', line)
            if op:
                found.setdefault((op.group(1), re.search(r"run-(\w+)", path).group(1)), []).append((path, i))
    jobs = []
    for (op, pid), at in sorted(found.items()):
        n = 0
        for path, i in rng.sample(at, min(len(at), 12)):
            with open(path, encoding="utf-8") as f:
                lines = f.readlines()[:i + 1]
            e = json.loads(lines[-1])
            spots = [(p, h) for k in e if k not in ARGS for p, h in leaves({k: e[k]}) if p]
            if not spots:
                continue
            for p, h in rng.sample(spots, min(len(spots), 2)):
                jobs.append((op, pid, path, i, p, h))
                n += 1
            if n >= PER:
                break

    def run(j):
        op, pid, path, i, p, h = j
        with open(path, encoding="utf-8") as f:
            lines = f.readlines()[:i + 1]
        lines[-1] = json.dumps(change(json.loads(lines[-1]), p, h), ensure_ascii=False) + "\n"
        return j, judge(lines), lines[-1][:300]

    table, bad = {}, 0
    with cf.ThreadPoolExecutor(6) as pool:
        for (op, pid, path, i, p, h), (verdict, text), line in pool.map(run, jobs):
            table.setdefault((op, pid), []).append(verdict)
            if verdict != "rejected":
                bad += 1
                print(verdict, op, pid, p, h, line, text if verdict == "error" else "", flush=True)
    for (op, pid), vs in sorted(table.items()):
        print(f"{op:10} {pid} {vs.count('rejected')}/{len(vs)} rejected")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
