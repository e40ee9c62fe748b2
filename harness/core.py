"""Cases: generation -> execution on the real code -> validation against the specification."""
from __future__ import annotations
import os, time
from pool import run_jobs
import judge

NOOPTS = {"use": [], "tl": [], "meas": [], "ind": False, "iv": []}


def opts(**kw):
    o = {"use": [], "tl": [], "meas": [], "ind": False, "iv": []}
    o.update(kw)
    return o


def load(call=None, cut=-1, same=0, of=0, **kw):
    return {"op": "load", "o": opts(**kw), "cut": cut, "same": same, "of": of, "call": call or {}}


def times(call=None):
    return {"op": "time", "o": opts(), "cut": -1, "same": 0, "of": 0, "call": call or {}}


RKEYS = ("ok", "err", "times", "svs", "vars", "cells", "attrs")
FAIL = {"ok": False, "err": "", "times": [], "svs": [], "vars": [], "cells": [], "attrs": ""}


def strip(line):
    return {k: v for k, v in line.items() if k not in ("txt", "blank")}


def spec_case(case, replies):
    """the record TraceRead.tla reads"""
    d = case["doc"]
    runs = []
    for run, r in zip(case["runs"], replies):
        runs.append({k: run[k] for k in ("op", "o", "cut", "same", "of")} | {"r": {k: r[k] for k in RKEYS}})
    w = 30 + len(d["lines"]) * len(runs) + sum(len(r["cells"]) for r in replies)
    return {"id": case["id"], "fam": d["fam"], "h": d["h"], "lines": [strip(x) for x in d["lines"]], "broken": bool(d.get("broken")), "runs": runs, "_w": w}


def replies_of(rep, n):
    if rep.get("machinery"):
        return [dict(FAIL, err="Unrecordable", msg=rep["machinery"].strip()[-200:])] * n
    if rep.get("timeout"):
        return [dict(FAIL, err="Timeout")] * n
    if "died" in rep:
        return [dict(FAIL, err="Died")] * n
    return rep["r"]


def run_reads(cases, scratch, timeout=40, budget=None, shards=8, nworkers=8):
    """-> (executed cases, verdicts, states, transitions)"""
    reps = run_jobs([{"job": "reads", "doc": c["doc"], "runs": c["runs"]} for c in cases], timeout=timeout,
                    budget=budget, scratch=scratch, nworkers=nworkers)
    done, tc = [], []
    for c, r in zip(cases, reps):
        if r is None:
            continue
        rr = replies_of(r, len(c["runs"]))
        c["replies"] = rr
        done.append(c)
        tc.append(spec_case(c, rr))
    vs, st, tr = judge.validate("TraceRead", tc, os.path.join(scratch, "tlc"), shards=shards)
    return done, vs, st, tr
