"""Check of C26: what the plots show."""
from __future__ import annotations
import math, os, random
from collections import Counter
from datetime import datetime, timedelta

import core, docs, heads, judge, orbits, scen, tools
from docs import E2020, tt
from pool import run_jobs

EXT = {"obs2": "20o", "obs3": "rnx", "nav2": "20n", "nav3": "rnx", "sp3": "sp3"}
NONE = core.opts()


# %% observations
def phase_name(fam):
    return "L1" if fam == "obs2" else "L1C"


def with_phase(r, d):
    """one of the measurements is a carrier phase on L1"""
    lists = [d["h"]["types"]] if d["fam"] == "obs2" else [c["c"] for c in d["h"]["codes"]]
    p = phase_name(d["fam"])
    for c in lists:
        if p not in c and r.random() < 0.85:
            c[r.randrange(len(c))] = p
        elif p in c and r.random() < 0.1:
            c[c.index(p)] = "Q9" if d["fam"] == "obs2" else "S9Z"
    return d


def obs_part(r):
    d = (docs.gen_obs2 if r.random() < 0.5 else docs.gen_obs3)(r, cap=250)
    with_phase(r, d)
    o, c = {}, {}
    if r.random() < 0.4:
        o, c = scen.any_opts(r, d)
        if o.get("meas") and r.random() < 0.6:
            o["meas"] = o["meas"][:1] + [r.choice(["L", "L1"])]
            c["meas"] = "list"
    return {"fam": d["fam"], "doc": d, "o": core.opts(**o), "call": c}


def table_part(r, cells):
    """a table of values exported by the model, as a file; names L1 and C1"""
    fam = r.choice(["obs2", "obs3"])
    nt = max([c[0][0] for c in cells], default=1)
    names = ["L1", "C1"]
    if r.random() < 0.5:
        names = names[::-1]
    have = {(c[0][0], c[1], c[2]): c[3] for c in cells}
    step = r.choice([1, 30, 900])
    t0 = docs.rnd_start(r)
    ts = [t0 + timedelta(seconds=step * (k - 1)) for k in range(1, max(nt, 3) + 1)]
    svs = [["G", 1], ["R", 2]]
    lines = []
    for k, t in enumerate(ts, 1):
        rows = [(sv, [[have.get((k, f"{sv[0]}{sv[1]:02d}", n), -100) + 100, -1, -1] for n in names]) for sv in svs]
        rows = [(sv, [x if x[0] > 0 else [-1, -1, -1] for x in c]) for sv, c in rows]
        if r.random() < 0.5:
            rows = [q for q in rows if any(x[0] >= 0 for x in q[1])]
        r.shuffle(rows)
        if fam == "obs2":
            lines.append({"k": "E", **docs.civil(t, True), "fl": 0, "n": len(rows), "svs": [sv for sv, _ in rows]})
            lines += [{"k": "D", "c": c} for _, c in rows]
        else:
            lines.append({"k": "E", **docs.civil(t, False), "fl": 0, "n": len(rows)})
            lines += [{"k": "S", "sv": sv, "c": c} for sv, c in rows]
    long = [n if fam == "obs2" else n + "C" for n in names]
    h = {"sys": "M", "types": long} if fam == "obs2" else {"sys": "M", "codes": [{"s": s, "c": long} for s in "GR"]}
    d = {"fam": fam, "h": h, "lines": lines, "meta": docs.obs_meta(r, ts, int(fam[3]), "M"), "style": docs.style(r)}
    return {"fam": fam, "doc": d, "o": NONE, "call": {}}


# %% navigation
def place(r, sys):
    """somewhere on an orbit, in km"""
    lon, lat = r.choice([r.uniform(-math.pi, math.pi), 0.0, math.pi, -math.pi / 2]), r.uniform(-1.1, 1.1) * (0.02 if sys == "S" else 1)
    q = 42164.0 if sys == "S" else 25500.0 + r.uniform(-50, 50)
    return [q * math.cos(lat) * math.cos(lon), q * math.cos(lat) * math.sin(lon), q * math.sin(lat)]


def nav_file(r, fam, recs, system):
    """recs: (time, satellite) in the order of the file"""
    text = orbits.header(fam, system if fam == "nav2" else "M")
    lines, hand = [], []
    a = 22 if fam == "nav2" else 23
    for n, (t, sv) in enumerate(recs, 1):
        ls, _ = orbits.record(r, fam, sv, t, xyz=place(r, sv[0]) if sv[0] in "RS" else None)
        text += ls
        fields = []
        for k, ln in enumerate(ls):
            ln = ln[a if k == 0 else 3 if fam == "nav2" else 4 :]
            row = [ln[i : i + 19] for i in range(0, len(ln), 19)]
            fields += row
            row = [n if x.strip() else -1 for x in row]
            if k == 0:
                lines.append({"k": "E", **({"prn": sv[1]} if fam == "nav2" else {"sv": list(sv)}), **docs.civil(t, fam == "nav2"), "c": row})
            else:
                lines.append({"k": "D", "c": row})
        sys = sv[0]
        names = orbits.PARAMS["E2" if sys == "E" and fam == "nav2" else sys if sys in "GERS" else "G"]
        val = {k: float(f.replace("D", "E")) for k, f in zip(names, fields)}
        if sys in "RS":
            hand.append({"xyz": [1000 * val[k] for k in "XYZ"]})
        elif sys in "GE":
            hand.append({"el": {k: val[k] for k in orbits.KEPLER} | {"GPSWeek" if sys == "G" else "GALWeek": val["Week"]}, "times": [tt(t)], "svtype": sys, "whole": False, "shared": False})
        else:
            hand.append({"xyz": [7e6, 0.0, 0.0]})
    return {"fam": fam, "h": {"sys": system}, "lines": lines, "text": "\n".join(text) + "\n", "hand": hand, "o": NONE, "call": {}}


def nav_part(r):
    fam = r.choice(["nav2", "nav3", "nav3"])
    t = r.choice(orbits.STARTS[:4]) if r.random() < 0.3 else datetime(2000, 1, 1) + timedelta(seconds=r.randrange(0, 30 * 365 * 86400))
    ts = [t]
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        ts.append(ts[-1] + timedelta(seconds=r.choice([7200, 3600, 600, 16, 86400])))
    systems = r.choice("GGERR") if fam == "nav2" else "".join(r.sample("GERSCJI", r.choice([1, 2, 3, 5, 7])))
    svs = [(s, n) for s in systems for n in r.sample(range(1, 33), r.choice([1, 1, 2, 3]))]
    recs = [(q, sv) for q in ts for sv in svs if r.random() < 0.75] or [(ts[0], svs[0])]
    k = r.random()
    if k < 0.4:
        r.shuffle(recs)
    elif k < 0.5:
        recs.reverse()
    for _ in range(r.choice([0, 0, 1, 2])):   # repeated
        recs.insert(r.randrange(len(recs) + 1), r.choice(recs))
    p = nav_file(r, fam, recs, systems)
    if fam == "nav3":
        o = {}
        got = sorted({sv[0] for _, sv in recs})
        if r.random() < 0.25:
            o["use"] = sorted(r.sample(got, r.randint(1, len(got))))
            p["call"] |= scen.use_call(r, o["use"])
        if r.random() < 0.25:
            o["tl"] = sorted([tt(r.choice(ts)), tt(r.choice(ts))])
            p["call"] |= scen.tl_call(r, o["tl"])
        p["o"] = core.opts(**o)
    return p


def recs_part(r, recs):
    """a sequence of records exported by the model"""
    number = {"G": 1, "R": 2, "C": 3}
    t0 = datetime(2021, 3, 5, 22)
    return nav_file(r, "nav3", [(t0 + timedelta(seconds=7200 * k), (s, number[s])) for s, k in recs], "GRC")


# %% cases
def data_case(r, parts):
    for i, p in enumerate(parts):
        p["name"] = r.choice(["a", "longer name", "x.y", f"n{r.randrange(100)}"]) + f"{i}." + EXT[p["fam"]]
    kinds = [p["fam"][:3] for p in parts]
    via = ["file", "file", "stream", "nc", "ncpart", *(["tuple", "tuple", "nc"] if len(parts) > 1 else ["file"])] + ["cli"] * (len(parts) == 1)
    via = r.choice(via)
    if via in ("nc", "ncpart") and "sp3" in kinds or via == "stream" and "sp3" in kinds:
        via = "file"
    return {"k": "data", "via": via, "parts": parts}


def gen_case(r):
    k = r.random()
    if k < 0.45:
        return data_case(r, [obs_part(r)])
    if k < 0.8:
        return data_case(r, [nav_part(r)])
    if k < 0.95:
        return data_case(r, [obs_part(r), nav_part(r)])
    d = docs.gen_sp3(r, ne=2, nsv=2)
    return data_case(r, [{"fam": "sp3", "doc": d, "o": NONE, "call": {}}])


STEPS = [-1, -1, 0, 1, 100, 500, 999, 1000, 4999, 5000, 5001, 10000, 14999, 15000, 15001, 20000, 29999, 30000, 30001, 60000, 900000]


def rows_case(r, steps=None):
    steps = steps if steps is not None else [r.choice(STEPS) for _ in range(r.choice([0, 1, 2, 3, 8]))]
    rows = []
    for i, ms in enumerate(steps):
        lat, lon = r.choice([r.uniform(-90, 90), 0.0, 89.5, -12.25]), r.choice([r.uniform(-180, 180), 0.0, 180.0, -179.875])
        name = rows[-1][0] if rows and r.random() < 0.05 else f"r{i} " + r.choice(["", "a.20o", "ABMF00GLP"])
        rows.append([name.strip(), f"{lat:.12g}", f"{lon:.12g}", ms])
    return {"k": "map", "via": "table", "rows": rows}


def loc_case(r):
    files = []
    for i in range(r.choice([1, 2, 3, 5])):
        f = tools.obs_file(r, i)
        f = {"sub": "", "seed": 0} | f
        if r.random() < 0.15:
            f = {"kind": "raw", "raw": b"nothing of use\n", "name": f"j{i}.20o", "states": "no", "recs": [], "pos": None, "sub": ""}
        f["name"] = f"k{i}-" + f["name"]
        files.append(f)
    return {"k": "map", "via": "cli", "files": files, "globs": ["k*"]}


# %% execution and judgement
def millis(recs):
    q = [x["num"][0] for x in recs if x["lab"] == "INTERVAL" and x["num"]]
    return int(round(float(q[0]) * 1000)) if q else -1


def spec_case(c, r):
    out = {"id": c["id"], "k": c["k"], "ok": r["ok"], "figs": r["figs"], "rows": [], "parts": []}
    if c["k"] == "map":
        if c["via"] == "cli":
            out["rows"] = [{"name": f["name"], "lat": g[0], "lon": g[1], "ms": millis(f["recs"])} for f, (g, _) in zip(c["files"], r["geo"]) if f["states"] == "yes"]
        else:
            out["rows"] = [{"name": x[0], "lat": x[1], "lon": x[2], "ms": x[3]} for x in c["rows"]]
    else:
        for p, refs, title in zip(c["parts"], r["refs"], r["titles"]):
            h, lines = (p["doc"]["h"], p["doc"]["lines"]) if "doc" in p else (p["h"], p["lines"])
            out["parts"].append({"fam": p["fam"], "h": h, "o": p["o"], "lines": [core.strip(x) for x in lines], "refs": refs, "title": title})
    out["_w"] = 30 + sum(len(p["lines"]) for p in out["parts"]) * 2 + sum(len(q["pts"]) for f in out["figs"] for q in f["curves"])
    return out


def run_cases(ctx, cases, budget):
    for i, c in enumerate(cases):
        c["id"] = i
    reps = run_jobs([{"job": "plot"} | c for c in cases], timeout=90, budget=budget, scratch=ctx.scratch)
    done, tc = [], []
    for c, r in zip(cases, reps):
        if r is None:
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "plot: " + r["machinery"].strip()[-300:], replay_of(c))
            continue
        if r.get("timeout") or "died" in r:
            ctx.violation(["Timeout" if r.get("timeout") else "Died"], "plot: did not finish", replay_of(c))
            continue
        if r.get("skip"):
            ctx.count(not_read=1)
            continue
        c["rep"] = r
        done.append(c)
        if not r.get("same", True):
            ctx.violation(["InputChanged"], f"plot: {c['k']}", replay_of(c))
        tc.append(spec_case(c, r))
    vs, st, tr = judge.validate("TracePlot", tc, os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    byid = {c["id"]: c for c in done}
    for v in vs:
        c = byid[v["id"]]
        what = c["rows"] if c.get("rows") else [(p["fam"], {k: q for k, q in p["o"].items() if q}) for p in c.get("parts", [])]
        ctx.violation(v["clauses"], f"plot {c['k']} via {c['via']}: {what} gave {c['rep']['msg']} {c['rep']['figs']}"[:900], replay_of(c))
    return done


def replay_of(c):
    import base64
    c = {k: v for k, v in c.items() if k != "rep"}
    if "files" in c:
        c["files"] = [dict(f, raw={"__b64__": base64.b64encode(f["raw"]).decode()}) if "raw" in f else f for f in c["files"]]
    return {"kind": "plot", "case": c}


def run(ctx):
    t = ctx.thorough
    ctx.model(("MC_Plot", "plot_deep" if t else "plot"))
    got = sorted(ctx.emitted("MC_Plot", "plot_emit"), key=str)
    r = random.Random(f"C26/{ctx.seed}")
    cases = []
    for k, n in (("obs", 90), ("nav", 60), ("map", 60)):
        q = [x for x in got if x["k"] == k]
        r.shuffle(q)
        for x in q if t else q[:n]:
            cases.append(data_case(r, [table_part(r, x["cells"])]) if k == "obs" else data_case(r, [recs_part(r, x["recs"])]) if k == "nav" else rows_case(r, x["rows"]))
    cases += [gen_case(random.Random(f"C26/{ctx.seed}/{i}")) for i in range(4000 if t else 330)]
    cases += [rows_case(random.Random(f"C26/r/{ctx.seed}/{i}")) for i in range(400 if t else 40)]
    cases += [loc_case(random.Random(f"C26/l/{ctx.seed}/{i}")) for i in range(200 if t else 24)]
    done = run_cases(ctx, cases, 2400 if t else 300)
    ctx.traces += len(done)
    figs = [f for c in done for f in c["rep"]["figs"]]
    ctx.info |= {"plotted": dict(Counter(c["k"] + "/" + c["via"] for c in done)), "panels": sum(bool(f["label"]) for f in figs), "maps": sum(not f["label"] for f in figs),
                 "points": sum(len(q["pts"]) for f in figs for q in f["curves"]), "markers": sum(len(f["marks"]) for f in figs)}
    if not ctx.violations and (len(done) < len(cases) // 2 or not ctx.info["points"] or not ctx.info["markers"]):
        raise judge.Machinery(f"only {len(done)} of {len(cases)} cases plotted")
    for c in done[:: max(1, len(done) // 3)][:3]:
        ctx.samples.append({"via": c["via"], "figures": [{k: v for k, v in f.items() if k != "curves"} | {"curves": [q["name"] for q in f["curves"]]} for f in c["rep"]["figs"]]})


def replay(ctx, rp):
    import base64
    c = rp["replay"]["case"]
    for f in c.get("files", []):
        if "raw" in f:
            f["raw"] = base64.b64decode(f["raw"]["__b64__"])
    run_cases(ctx, [c], None)
    ctx.traces = 1
