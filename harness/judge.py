"""Runs TLC: trace validation of recorded cases, exhaustive and simulated models."""
from __future__ import annotations
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    pass


def tlc(module: str, cfg: str, scratch: str, env=None, args=(), heap="2g", timeout=800, workers=1, cwd=None, short=False):
    os.makedirs(scratch, exist_ok=True)
    cmd = ["java", f"-Xmx{heap}", f"-Djava.io.tmpdir={scratch}", "-Xss64m", *(["-XX:TieredStopAtLevel=1"] if short else []), "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(4, workers))}", "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-metadir", os.path.join(scratch, "meta"), "-workers", str(workers), *args, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       errors="replace")
    return p.returncode, p.stdout


STATS = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


def stats(out: str):
    m = STATS.findall(out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def unprint(line: str):
    """a string printed by TLC's PrintT: "@@{...}" with escaped quotes"""
    s = line.strip()
    return json.loads(json.loads(s)[2:]) if s.startswith('"') else json.loads(s[2:])


def validate(module: str, cases: list[dict], scratch: str, shards=8, heap="3g", timeout=850):
    """each case is a JSON-able record; returns (verdicts, states, transitions)"""
    if not cases:
        return [], 0, 0
    total = sum(c.get("_w", 1) for c in cases)
    shards = max(1, min(shards, len(cases), total // 4000 + 1))
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get("_w", 1))
    parts = [[] for _ in range(shards)]
    load = [0] * shards
    for i in order:
        k = load.index(min(load))
        parts[k].append(cases[i])
        load[k] += cases[i].get("_w", 1)

    def one(k):
        d = os.path.join(scratch, f"j{k}")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "cases.ndjson")
        with open(fn, "w") as f:
            for c in parts[k]:
                f.write(json.dumps({a: b for a, b in c.items() if a != "_w"}) + "\n")
        rc, out = tlc(module + ".tla", module + ".cfg", d, env={"CASES": fn}, args=("-noGenerateSpecTE",), heap=heap, timeout=timeout, short=True)
        vs = [unprint(l) for l in out.splitlines() if l.startswith('"@@')]
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            raise Machinery(f"TLC {module} failed (rc {rc}) on {fn}:\n" + out[out.find("Error:"):][:600] + "\n...\n" + out[-2000:])
        os.remove(fn)
        g, s = stats(out)
        return vs, s, g

    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    return sum((r[0] for r in rs), []), sum(r[1] for r in rs), sum(r[2] for r in rs)


def model(module, cfg, scratch, workers=4, timeout=850, heap="6g"):
    """exhaustive check of a bounded model; returns (distinct states, states generated, output)"""
    rc, out = tlc(module + ".tla", f"mc/{cfg}.cfg", os.path.join(scratch, cfg), args=("-noGenerateSpecTE",), workers=workers,
                  timeout=timeout, heap=heap)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise Machinery(f"TLC {module} {cfg} failed (rc {rc}):\n" + out[-3000:])
    g, d = stats(out)
    return d, g, out


def emitted(module, cfg, scratch, timeout=300, args=(), workers=4):
    """what a bounded model exports (printed records)"""
    rc, out = tlc(module + ".tla", f"mc/{cfg}.cfg", os.path.join(scratch, cfg), args=("-noGenerateSpecTE", *args), workers=workers,
                  timeout=timeout, short=True)
    if rc != 0:
        raise Machinery(f"TLC {module} {cfg} failed (rc {rc}):\n" + out[-3000:])
    g, d = stats(out)
    return [unprint(l) for l in out.splitlines() if l.startswith('"@@')], d, g
