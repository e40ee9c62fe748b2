"""Checks of the file readers (C01..C11, C13, C19): scenarios from generators and from the bounded models."""
from __future__ import annotations
import random
from datetime import datetime, timedelta
from collections import Counter

import core, docs, render, scen
from docs import E2020

# property: (quick models, thorough models, exported configs)
O2q, O3q = ("MC_Obs2", "obs2_all"), ("MC_Obs3", "obs3_all")
N2q, N3q, S3q = ("MC_Nav2", "nav2_quick"), ("MC_Nav3", "nav3_quick"), ("MC_Sp3", "sp3_quick")
DEC = [("MC_Obs2", "obs2_decimate"), ("MC_Obs3", "obs3_decimate")]
EV = [("MC_Obs2", "obs2_events"), ("MC_Obs3", "obs3_events")]
PROD = [("MC_Obs2", "obs2_product"), ("MC_Obs3", "obs3_product")]
WRAP = ("MC_Obs2", "obs2_wrap")
N2all = [("MC_Nav2", f"nav2_{s}") for s in "GRE"]
N3all = [("MC_Nav3", c) for c in ("nav3_three", "nav3_layouts", "nav3_deep")]
S3all = [("MC_Sp3", c) for c in ("sp3_all", "sp3_deep", "sp3_pos")]
E2, E3 = ("MC_Obs2", "obs2_emit"), ("MC_Obs3", "obs3_emit")
EN2 = [("MC_Nav2", f"nav2_emit{s}") for s in "GRE"]
EN3 = [("MC_Nav3", "nav3_emit"), ("MC_Nav3", "nav3_emitL")]
ES3 = [("MC_Sp3", "sp3_emit"), ("MC_Sp3", "sp3_emitP")]

MODELS = {
    "C01": ([("MC_Obs2", "obs2_events")], [O2q, WRAP], [E2]),
    "C02": ([("MC_Obs3", "obs3_events")], [O3q], [E3]),
    "C03": ([("MC_Nav2", "nav2_pairs")], N2all, EN2),
    "C04": ([N3q], N3all, EN3),
    "C05": ([S3q, ("MC_Sp3", "sp3_pos")], S3all, ES3),
    "C06": ([N2q, O2q], PROD + N2all[1:2], [E2, E3, EN2[0], EN3[0]]),
    "C07": ([O3q, N3q], [O2q] + PROD, [E2, E3, EN3[0]]),
    "C08": ([O2q, O3q], PROD, [E2, E3]),
    "C09": (DEC, PROD, [E2, E3]),
    "C10": ([O2q, O3q], PROD, [E2, E3]),
    "C11": ([O2q], [WRAP, PROD[0], DEC[0]], [E2]),
    "C13": (EV[:1] + [N2q], EV + N3all[:1], [E2, E3] + EN2 + EN3[:1]),
    "C23": ([O2q, O3q], PROD + DEC, [E2, E3, EN3[0]]),
    "C24": ([("MC_Damage", "damage")], [("MC_Damage", "damage_deep")], [("MC_Damage", "damage_emit")]),
    "C19": ([("MC_Obs2", "obs2_events"), N3q, S3q], EV + N2all[:1] + N3all[:1] + S3all, [E2, E3] + EN2 + EN3 + ES3),
}
# which exported choices of options belong to a property
FOCUS = {"C06": "tl", "C07": "use", "C08": "meas", "C09": "iv", "C10": "ind"}


def realise(rec, r: random.Random):
    """abstract file exported by a model -> document with a style"""
    fam = rec["fam"]
    lines = []
    for ln in rec["lines"]:
        ln = dict(ln)
        if ln["k"] == "H":
            ln["txt"] = r.choice(docs.HTEXT)
        elif ln["k"] == "J":
            ln["txt"] = "/* a comment" if fam == "sp3" else r.choice(docs.JTEXT)
            if fam == "sp3" and r.random() < 0.7:
                ln["txt"] = r.choice(["EP  55  55  55     222  1234567 -1234567 5999999      -30       21 -1230000",
                                      "EV  22  22  22     111  1234567  1234567 1234567  1234567 -1234567 -1234567"])
        elif ln["k"] == "E" and ln.get("fl", 0) > 1:
            ln["blank"] = r.random() < 0.5
        if "dmg" in ln:
            ln |= {"dmg": [*r.choice(docs.DATECOLS[fam]), r.choice("**x ?")], "dated": False}
        lines.append(ln)
    d = {"fam": fam, "h": rec["h"], "lines": lines, "style": docs.style(r)}
    if rec.get("broken"):
        d["broken"] = True
    if fam.startswith("obs"):
        ts = [E2020 + timedelta(seconds=t[0], microseconds=t[1]) for t in scen.doc_times(d)] or [datetime(2020, 1, 1)]
        d["meta"] = docs.obs_meta(r, ts, int(fam[3]), "M")
    elif fam == "sp3":
        d["meta"] = {"t0": lines[0]}
    else:
        d["meta"] = {"version": r.choice([2.11, 2.1] if fam == "nav2" else [3.0, 3.02, 3.04])}
    return d


def opt_run(prop, o, r, fam):
    c = {}
    if o["use"]:
        c |= scen.use_call(r, o["use"])
    if o["tl"]:
        c |= scen.tl_call(r, o["tl"])
    if o["meas"]:
        c |= scen.meas_call(r, o["meas"])
    if o["iv"]:
        c |= scen.iv_call(r, o["iv"])
    if fam == "obs2":
        c["fast"] = r.random() < 0.5
    return core.load(call=c, **o)


def plain(o):
    return not (o["use"] or o["tl"] or o["meas"] or o["ind"] or o["iv"])


def exported_cases(ctx, prop, base, limit):
    """exported files as cases, grouped by file, at most limit runs"""
    out = []
    for mod, cfg in MODELS[prop][2]:
        recs = ctx.emitted(mod, cfg)
        groups = {}
        for rec in recs:
            key = str((rec["h"], rec["lines"]))
            groups.setdefault(key, (rec, []))[1].append(rec["o"])
        keys = sorted(groups)
        r = random.Random(f"{prop}/{ctx.seed}/{cfg}")
        r.shuffle(keys)
        runs = 0
        per = limit // len(MODELS[prop][2])
        for key in keys:
            if runs >= per:
                break
            rec, os_ = groups[key]
            d = realise(rec, r)
            fam = d["fam"]
            cs = []
            if prop == "C13":
                cs = [core.load(), core.times()]
            elif prop == "C19":
                n = len(d["lines"])
                cs = [core.load(cut=k, call={"fast": r.random() < 0.5} if fam == "obs2" else {}) for k in range(n)]
                if len(cs) > 14 and not ctx.thorough:
                    cs = r.sample(cs, 14)
            elif prop == "C11":
                for o in sorted(os_, key=str)[: None if ctx.thorough else 6] if ctx.thorough else r.sample(os_, min(4, len(os_))):
                    q = opt_run(prop, o, r, fam)
                    q["call"]["fast"] = True
                    cs.append(q)
                    cs.append(core.load(call=q["call"] | {"fast": False}, same=len(cs), **o))
            elif prop == "C24":
                cs = [core.load(call={"fast": r.random() < 0.5} if fam == "obs2" else {}, ind=fam.startswith("obs"))] + [core.times()] * (fam != "sp3")
            elif prop == "C23":   # choices of two or more options
                cs = [opt_run(prop, o, r, fam) for o in os_ if sum(bool(o[k]) for k in ("use", "tl", "meas", "ind", "iv")) > 1]
            elif prop in FOCUS:
                sel = [o for o in os_ if o[FOCUS[prop]]]
                if prop == "C08":
                    cs.append(core.load())
                for o in sel:
                    q = opt_run(prop, o, r, fam)
                    if prop == "C08":
                        q["of"] = 1
                    cs.append(q)
            else:
                cs = [opt_run(prop, o, r, fam) for o in os_ if plain(o)]
            if not cs:
                continue
            runs += len(cs)
            out.append({"id": base + len(out), "doc": d, "runs": cs, "from": cfg})
    return out


def directed(prop):
    """known-finding histories, so that they are seen in every run"""
    if prop != "C06":
        return []
    r = random.Random("NAV2-WINDOW")
    t = datetime(2020, 1, 1)
    d = docs.gen_nav2(r, sys="G", nsv=2, ts=[t, t + timedelta(hours=2)], fill=1.0, order="sv", dup=False, junk=False, frac=False)
    return [(d, [core.load(tl=[docs.tt(t), docs.tt(t)])])]


def run(ctx):
    prop = ctx.prop
    quick, thorough, _ = MODELS[prop]
    ctx.model(*(quick + (thorough if ctx.thorough else [])), workers=3)
    n = scen.PLAN[prop][2 if ctx.thorough else 1]
    cases = scen.cases(prop, ctx.seed, n)
    for d, runs in directed(prop):
        cases.append({"id": len(cases), "doc": d, "runs": runs})
    cases += exported_cases(ctx, prop, len(cases), 60000 if ctx.thorough else 1500)
    done, vs, st, tr = core.run_reads(cases, ctx.scratch, budget=2400 if ctx.thorough else 400, nworkers=8)
    byid = {c["id"]: c for c in done}
    ctx.states += st
    ctx.trans += tr
    ctx.traces += sum(len(c["runs"]) for c in done)
    fam = Counter(c["doc"]["fam"] for c in done)
    ctx.info["files_by_format"] = dict(fam)
    ctx.info["files_generated"] = sum(1 for c in done if "from" not in c)
    ctx.info["files_from_models"] = sum(1 for c in done if "from" in c)
    ctx.info["files_with_events"] = sum(1 for c in done if any(l["k"] == "E" and l.get("fl", 0) > 1 for l in c["doc"]["lines"]))
    ctx.info["cells_compared"] = sum(len(r["cells"]) for c in done for r in c["replies"])
    ctx.info["reads_returning_data"] = sum(1 for c in done for r in c["replies"] if r["cells"])
    ctx.info["reads_refused"] = sum(1 for c in done for r in c["replies"] if not r["ok"])
    if not ctx.info["reads_returning_data"] and not vs:
        raise core.judge.Machinery("no read returned any data")
    bad = set()
    for v in vs:
        c = byid[v["id"]]
        run_ = c["runs"][v["run"] - 1]
        rep = c["replies"][v["run"] - 1]
        if v["known"]:
            ctx.known[v["known"]] = ctx.known.get(v["known"], 0) + 1
            if any(f["id"] == v["known"] and f["property"] == prop for f in known()):
                continue
        bad.add(v["id"])
        ctx.violation(v["clauses"], f"{c['doc']['fam']} {run_['op']}: options {run_['o']} passed as {run_['call']}, "
                      f"cut {run_['cut']}: {rep['err']} {rep.get('msg', '')}",
                      {"kind": "reads", "case": {k: c[k] for k in ("id", "doc", "runs")}, "run": v["run"],
                       "text": render.render(c["doc"], run_["cut"]), "reply": rep})
    for c in done[:: max(1, len(done) // 4)][:4]:
        k = len(c["runs"]) - 1
        ctx.samples.append({"file": render.render(c["doc"], c["runs"][k]["cut"])[-900:], "call": c["runs"][k],
                            "returned": {"ok": c["replies"][k]["ok"], "times": c["replies"][k]["times"][:4],
                                         "svs": c["replies"][k]["svs"][:6], "cells": len(c["replies"][k]["cells"])},
                            "verdict": "violation" if c["id"] in bad else "allowed by the specification"})


def known():
    import engine
    return engine.findings()["findings"]


def replay(ctx, rp):
    c = rp["replay"]["case"]
    done, vs, st, tr = core.run_reads([c], ctx.scratch)
    ctx.states, ctx.trans, ctx.traces = st, tr, len(c["runs"])
    for v in vs:
        if v["known"]:
            ctx.known[v["known"]] = 1
            continue
        rep = c["replies"][v["run"] - 1]
        ctx.violation(v["clauses"], f"{c['doc']['fam']} {c['runs'][v['run'] - 1]['op']}: {rep['err']} {rep.get('msg', '')}",
                      {"kind": "reads", "case": {k: c[k] for k in ("id", "doc", "runs")}, "run": v["run"], "reply": rep})
