"""Check of C25: calls made at the same time in several threads give what each gives alone."""
from __future__ import annotations
import os, random
from collections import Counter

import core, judge, scen
import box as B
import sessions as S
from pool import run_jobs


def case(r, hist):
    n = max(hist)
    fam = r.choice(["obs2", "obs3", "nav2", "nav3", "sp3"])
    con = [S.doc_content(r, fam)]
    while len(con) < n and r.random() < 0.7:
        con.append(S.doc_content(r, r.choice([fam, fam, "obs2", "obs3", "nav2", "nav3", "sp3"])) if r.random() < 0.93 else S.odd_content(r))
    calls = S.call_table(r, con[0], 8)
    for _ in range(3):
        o, c = scen.any_opts(r, con[0]["doc"]) if r.random() < 0.5 else ({}, {})
        c.pop("tlbox", None)
        calls.append({"op": "convert", "o": core.opts(**o), "call": c})
    calls.append({"op": "batch", "o": core.opts(), "call": {}})
    boxes = []
    for c in con:
        b = dict(B.PLAIN, suffix="untold")
        if "doc" in c and r.random() < 0.2:
            b["outer"] = r.choice(["gz", "bz2", "zip", "Z"])
        boxes.append(b)
    same = r.random() < 0.3   # the same call in all
    k0, c0 = r.randrange(len(calls)), r.randrange(len(con))
    procs = []
    for p in range(n):
        k = k0 if same else r.choice([0, 0, *range(len(calls))])
        c = c0 if same and r.random() < 0.5 else r.randrange(len(con))
        as_ = r.choice(["path", "str", "stream"])
        if calls[k]["op"] in ("locs", "convert", "batch") or con[c]["fam"] == "sp3":
            as_ = "path"
        procs.append({"k": k, "c": c, "as": as_, "file": r.random() < 0.5})
    return {"contents": con, "boxes": boxes, "calls": calls, "procs": procs, "hist": hist, "seed": r.randrange(10**6),
            "fine": r.choice(["", "", "", "early", "late"])}


KEYS = ("contents", "boxes", "calls", "procs", "hist", "seed", "fine")
NOSTEP = {"p": 0, "tok": "", "out": "", "held": [], "was": [], "opts": True, "before": [], "after": [], "outs": [], "names": []}


def run_cases(ctx, cases, budget):
    for i, c in enumerate(cases):
        c["id"] = i
    reps = run_jobs([{"job": "threads", **{k: c[k] for k in KEYS}} for c in cases], timeout=120, budget=budget, scratch=ctx.scratch)
    done, tc = [], []
    for c, r in zip(cases, reps):
        if r is None:
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "threads: " + r["machinery"].strip()[-300:], replay_of(c, 0))
            continue
        if r.get("timeout") or "died" in r:
            ctx.violation(["Timeout" if r.get("timeout") else "Died"], "threads: did not finish", replay_of(c, 0))
            continue
        if r.get("skip"):
            ctx.count(left_out_by_packer=1)
            continue
        c["rep"] = r
        done.append(c)
        tc.append({"id": c["id"], "alone": r["alone"], "steps": [NOSTEP | s for s in r["steps"]], "_w": 20 * len(r["steps"])})
    vs, st, tr = judge.validate("TraceThreads", tc, os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    return done, vs


def replay_of(c, step):
    return {"kind": "threads", "case": {k: c[k] for k in KEYS}, "step": step}


def report(ctx, done, vs):
    byid = {c["id"]: c for c in done}
    for v in vs:
        c = byid[v["id"]]
        what = "; ".join(f"thread {i + 1}: {c['calls'][p['k']]['op']} of {c['contents'][p['c']]['fam']} as {p['as']} {c['calls'][p['k']]['o']}" for i, p in enumerate(c["procs"]))
        ctx.violation(v["clauses"], f"{what}; order {c['hist']}"[:500], replay_of(c, v["step"]))


def run(ctx):
    t = ctx.thorough
    ctx.model(("MC_Threads", "threads_deep" if t else "threads"))
    two = sorted({str(h): h for h in ctx.emitted("MC_Threads", "threads_two")}.values(), key=str)
    three = sorted({str(h): h for h in ctx.emitted("MC_Threads", "threads_emit3")}.values(), key=str)
    r = random.Random(f"C25/{ctx.seed}")
    r.shuffle(three)
    r.shuffle(two)
    if t:
        hists = two * 6 + three[:3000]
    else:
        hists = two[:350] + three[:150]
    cases = [case(random.Random(f"C25/{ctx.seed}/{i}"), h) for i, h in enumerate(hists)]
    done, vs = run_cases(ctx, cases, 2400 if t else 300)
    ctx.traces += sum(len(c["procs"]) for c in done)
    ctx.info["runs"] = len(done)
    ctx.info["calls_by_operation"] = dict(Counter(c["calls"][p["k"]]["op"] for c in done for p in c["procs"]))
    ctx.info["calls_refused"] = sum(a["tok"].startswith("!") for c in done for a in c["rep"]["alone"])
    ctx.info["changes_of_thread"] = sum(1 for c in done for a, b in zip(c["rep"]["steps"], c["rep"]["steps"][1:]) if a.get("p") != b.get("p"))
    ctx.info["lines_run"] = sum(sum(c["rep"]["lines"]) for c in done)
    report(ctx, done, vs)
    if not ctx.violations and (not done or all(a["tok"].startswith("!") for c in done for a in c["rep"]["alone"])):
        raise judge.Machinery("no call returned anything")
    for c in done[:: max(1, len(done) // 3)][:3]:
        ctx.samples.append({"procs": c["procs"], "order": c["hist"], "steps": [[s["a"], s.get("p"), s.get("tok", "")] for s in c["rep"]["steps"]]})


def replay(ctx, rp):
    c = rp["replay"]["case"]
    report(ctx, *run_cases(ctx, [c], None))
    ctx.traces = 1
