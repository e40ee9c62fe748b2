"""Check of C17: satellite positions from broadcast records."""
from __future__ import annotations
import math, os, random
from collections import Counter
from datetime import datetime, timedelta
from decimal import Decimal as D, getcontext, ROUND_FLOOR

import docs, judge
from pool import run_jobs
from render import hl

getcontext().prec = 60
ONE24 = D(10) ** 24
KEPLER = ["Crs", "DeltaN", "M0", "Cuc", "Eccentricity", "Cus", "sqrtA", "Toe", "Cic", "Omega0", "Cis", "Io", "Crc", "omega", "OmegaDot", "IDOT"]
NUMS = [k for k in KEPLER if k != "Toe"]
T0 = datetime(1980, 1, 6)
PI = D("3.14159265358979323846264338327950288419716939937510582097494")
ROOTGM = D("398600441800000").sqrt()


def limbs(v: D) -> list[int]:
    n = int((v * ONE24).to_integral_value(ROUND_FLOOR))
    out = []
    for _ in range(9):
        out.append(n % 10000)
        n //= 10000
    out.append(n)
    return out


def dsin(x: D) -> D:
    x = x % (2 * PI)
    t, s, n = x, x, 1
    while abs(t) > D(10) ** -45:
        n += 2
        t = -t * x * x / (n * (n - 1))
        s += t
    return s


def dcos(x: D) -> D:
    return dsin(x + PI / 2)


def witness(el: dict, t: datetime) -> dict:
    d = t - (T0 + timedelta(weeks=el["wk"]))
    tk = D(d.days * 86400 + d.seconds - el["toe"]) + D(d.microseconds) / 1000000
    n0 = ROOTGM / el["sqrtA"] ** 3
    e = el["Eccentricity"]
    M = el["M0"] + (n0 + el["DeltaN"]) * tk
    E = M
    for _ in range(300):
        step = (E - e * dsin(E) - M) / (1 - e * dcos(E))
        E -= step
        if abs(step) < D(10) ** -35:
            break
    return {"n0": limbs(n0), "E": limbs(E), "root": limbs((1 - e * e).sqrt()), "q": limbs(1 / (1 - e * dcos(E)))}


def el_limbs(el):
    return {k: limbs(el[k]) for k in NUMS} | {"wk": el["wk"], "toe": el["toe"]}


# %% numbers in files
def field(v, exp="D") -> str:
    s = f"{v:19.12E}"
    m, e = s.split("E")
    if exp == "blank0" and v == 0:
        return f"{'.000000000000D+00':>19}"
    return m + ("E" if exp == "E" else "D") + e


def exact(s: str) -> D:
    return D(s.strip().replace("D", "E"))


PARAMS = {
    "G": ["SVclockBias", "SVclockDrift", "SVclockDriftRate", "IODE", *KEPLER, "CodesL2", "Week", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl"],
    "E": ["SVclockBias", "SVclockDrift", "SVclockDriftRate", "IODnav", *KEPLER, "DataSrc", "Week", "spare0", "SISA", "health", "BGDe5a", "BGDe5b", "TransTime"],
    "E2": ["SVclockBias", "SVclockDrift", "SVclockDriftRate", "IODnav", *KEPLER, "DataSrc", "Week", "SISA", "health", "BGDe5a", "BGDe5b", "TransTime"],
    "R": ["SVclockBias", "SVrelFreqBias", "MessageFrameTime", "X", "dX", "dX2", "health", "Y", "dY", "dY2", "FreqNum", "Z", "dZ", "dZ2", "AgeOpInfo"],
}
PARAMS["S"] = PARAMS["R"]


def angle(r):
    k = r.random()
    if k < 0.15:
        return r.choice([0, 1, -1, 2, -2]) * math.pi / 2
    return r.uniform(-math.pi, math.pi)


def elements(r, sys, t):
    wild = r.random() < 0.15
    zero = r.random() < 0.15
    z = lambda v: 0.0 if zero or r.random() < 0.05 else v
    e = r.choice([0.0, 1e-9, r.uniform(0, 0.02), r.uniform(0, 0.02), r.uniform(0, 0.2)])
    if wild:
        e = r.uniform(0, 0.35)
    off = r.choice([0, 0, 0, 7200, -7200, 16, -16, 3600, 5400, -1, 604800, -86400, r.randrange(-10000, 10000), r.randrange(-864000, 864000) if wild else 0])
    ref = t.replace(microsecond=0) + timedelta(seconds=off)
    if ref < T0:
        ref = T0
    wk, toe = divmod(int((ref - T0).total_seconds()), 604800)
    if toe == 0 and wk > 0 and r.random() < 0.3:
        wk, toe = wk - 1, 604800     # the end of the week before
    return {
        "sqrtA": r.uniform(2600, 7000) if wild else (5153.6 if sys == "G" else 5440.6) + r.uniform(-1, 1),
        "Eccentricity": e, "M0": angle(r), "omega": angle(r), "Omega0": angle(r),
        "Io": angle(r) / 2 if wild else r.uniform(0.9, 1.0), "DeltaN": z(r.uniform(-6e-9, 6e-9)),
        "OmegaDot": z(r.uniform(-9e-9, 2e-9)), "IDOT": z(r.uniform(-1e-9, 1e-9)),
        "Cuc": z(r.uniform(-2e-5, 2e-5)), "Cus": z(r.uniform(-2e-5, 2e-5)), "Cic": z(r.uniform(-1e-6, 1e-6)), "Cis": z(r.uniform(-1e-6, 1e-6)),
        "Crc": z(r.uniform(-400, 400)), "Crs": z(r.uniform(-400, 400)), "Week": float(wk), "Toe": float(toe)}


def record(r, fam, sv, t, given=None, lat=None, xyz=None):
    """-> (lines, what the specification sees)"""
    sys = sv[0]
    exp = r.choice(["D", "D", "E"])
    names = PARAMS["E2" if sys == "E" and fam == "nav2" else sys if sys in "GERS" else "G"]
    vals = {n: r.uniform(-1, 1) * 10.0 ** r.randrange(-12, 5) for n in names}
    if sys in "GE":
        vals |= given or elements(r, sys, t)
    elif sys in "RS":
        for n in "XYZ":
            vals[n] = xyz["XYZ".index(n)] if xyz else r.choice([r.uniform(-3e4, 3e4), 0.0, r.uniform(-10, 10)])
    fields = [field(vals[n], exp) for n in names][: 28 if sys == "I" else None]
    if fam == "nav3" and sys == "G":
        fields += ["", *([field(0, exp)] * r.choice([0, 0, 1]))][1:]
        if r.random() < 0.3:
            fields += [field(0, exp)] * (31 - len(fields))
    if fam == "nav2":
        head = f"{sv[1]:2d} {t.year % 100:02d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d}{t.second:3d}.{t.microsecond // 100000}"
        pad = "   "
    else:
        head = f"{sys}{sv[1]:02d} {t.year:04d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d} {t.second:02d}"
        pad = "    "
    lines = [head + "".join(fields[:3])]
    n = 3 if sys in "RS" else 7
    for k in range(n):
        lines.append(pad + "".join(fields[3 + 4 * k : 7 + 4 * k]))
    seen = {"t": docs.tt(t), "due": True, "xyz": [], "el": {}, "w": {}, "lat": [lat] if lat else []}
    if sys in "GE":
        el = {n: exact(f) for n, f in zip(names, fields) if n in NUMS}
        el |= {"wk": int(vals["Week"]), "toe": int(vals["Toe"])}
        seen |= {"el": el_limbs(el), "w": witness(el, t)}
    elif sys in "RS":
        seen["xyz"] = [limbs(1000 * exact(fields[names.index(n)])) for n in "XYZ"]
    return lines, seen


def header(fam, sys):
    if fam == "nav2":
        kind = {"G": "N: GPS NAV DATA", "R": "GLONASS NAV DATA", "E": "E: GALILEO NAV DATA"}[sys]
        out = [hl(f"{2.11:9.2f}           {kind:<20}{'':<20}", "RINEX VERSION / TYPE")]
    else:
        out = [hl(f"{3.04:9.2f}           {'NAVIGATION DATA':<20}{sys:<20}", "RINEX VERSION / TYPE")]
    return out + [hl("", "END OF HEADER")]


STARTS = [datetime(1999, 8, 21, 23, 0), datetime(2019, 4, 6, 22, 0), datetime(2020, 1, 4, 23, 59, 44), datetime(2020, 2, 29, 12), datetime(1980, 1, 6), datetime(2079, 12, 20),
          datetime(2038, 11, 20, 23), datetime(2016, 12, 31, 23)]


def file_case(r):
    fam = r.choice(["nav2", "nav3", "nav3"])
    t = r.choice(STARTS) if r.random() < 0.5 else T0 + timedelta(seconds=r.randrange(0, 99 * 365 * 86400))
    if r.random() < 0.2:
        t -= timedelta(days=(t - T0).days % 7, hours=t.hour, minutes=t.minute, seconds=t.second)   # start of a week
    ts = [t]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        ts.append(ts[-1] + timedelta(seconds=r.choice([7200, 3600, 600, 16, 86400])))
    if fam == "nav2" and r.random() < 0.3:
        ts = [q + timedelta(microseconds=100000 * r.randrange(1, 10)) for q in ts]
    ts = sorted({q for q in ts if q.year < 2080})
    if fam == "nav2":
        systems = r.choice("GGERE")
    else:
        systems = "".join(r.sample("GERSCJI", r.choice([1, 2, 3, 4, 5])))
        if not set(systems) & set("GERS"):
            systems += r.choice("GE")
    svs = []
    for s in systems:
        for n in r.sample(range(1, 33), r.choice([1, 1, 2, 3])):
            svs.append((s, n))
    recs = [(q, sv) for q in ts for sv in svs if r.random() < 0.75] or [(ts[0], svs[0])]
    r.shuffle(recs)
    if fam == "nav2" and r.random() < 0.8:
        recs.sort(key=lambda q: q[0])
    lines, by = [], {}
    for q, sv in recs:
        ln, seen = record(r, fam, sv, q)
        lines += ln
        by.setdefault(f"{sv[0]}{sv[1]:02d}", []).append(seen)
    call = {"via": r.choice(["file", "file", "stream", "nc"])}
    got = sorted({sv[0] for _, sv in recs})
    if fam == "nav3" and r.random() < 0.2:
        call["use"] = sorted(set(r.sample(got, r.randint(1, len(got)))))
    picks = []
    for name in sorted(by):
        if name[0] in "GERS" and (not call.get("use") or name[0] in call["use"]):
            picks.append({"sv": name, "how": r.choice(["sel", "sel", "sel", "drop", "one", "back", "where", "some", "list"]), "k": r.randrange(9)})
    if not picks:
        return file_case(r)
    text = "\n".join(header(fam, systems if fam == "nav2" else ("M" if len(systems) > 1 else systems)) + lines) + "\n"
    return {"text": text, "name": "a.20n" if fam == "nav2" else "a.rnx", "call": call, "picks": picks, "by": by, "fam": fam}


def hand_case(r):
    hs, picks, by = [], [], {}
    for i in range(3):
        t = T0 + timedelta(seconds=r.randrange(0, 99 * 365 * 86400), microseconds=r.choice([0, 0, 500000, r.randrange(10**6)]))
        sys = r.choice("GE")
        el = {k: exact(field(v)) for k, v in elements(r, sys, t).items()}
        week = "GPSWeek" if sys == "G" else "GALWeek"
        ts = [t + k * timedelta(seconds=r.choice([30, 900, 1])) for k in range(r.choice([1, 1, 3]))]
        ts = sorted(set(ts))
        full = {k: el[k] for k in NUMS} | {"wk": int(el["Week"]), "toe": int(el["Toe"])}
        by[f"h{i}"] = [{"t": docs.tt(q), "due": True, "xyz": [], "lat": [], "el": el_limbs(full), "w": witness(full, q)} for q in ts]
        hs.append({"el": {**{k: str(el[k]) for k in KEPLER}, week: str(el["Week"])}, "times": [docs.tt(q) for q in ts], "svtype": r.choice([sys, [sys]]),
                   "shared": r.random() < 0.5, "whole": r.random() < 0.5})
        picks.append({"sv": f"h{i}", "how": "sel", "k": 0, "sys": sys})
    return {"hand": hs, "picks": picks, "by": by, "fam": "hand", "call": {"via": "hand"}, "name": "", "text": ""}


def lattice_cases(r, gs):
    """the orbits the model exports, in files"""
    r.shuffle(gs)
    out = []
    q = math.pi / 2
    for k in range(0, len(gs), 24):
        fam, sys = r.choice([("nav2", "G"), ("nav2", "E"), ("nav3", "G"), ("nav3", "E")])
        lines, by = [], {}
        for i, g in enumerate(gs[k : k + 24]):
            t = T0 + timedelta(weeks=2100 + i % 3)
            e = g["e5"] / 5
            el = {"sqrtA": 5000.0, "Eccentricity": e, "M0": g["E"] * q - e * [0, 1, 0, -1][g["E"]], "DeltaN": 0.0, "omega": g["w"] * q, "Omega0": g["o"] * q,
                  "OmegaDot": 0.0, "Io": g["i"] * q, "IDOT": 0.0, "Cuc": g["uc"] * q, "Cus": 1e-3 if not g["e5"] else 0.0, "Crc": 25.0 * g["rc"], "Crs": 100.0 if not g["e5"] else 0.0,
                  "Cic": g["ic"] * q, "Cis": 1e-3 if not g["e5"] else 0.0, "Week": float(2100 + i % 3), "Toe": 0.0}
            sv = (sys, i // 3 + 1)
            ln, seen = record(r, fam, sv, t, given=el, lat=g)
            lines += ln
            by.setdefault(f"{sv[0]}{sv[1]:02d}", []).append(seen)
        picks = [{"sv": n, "how": r.choice(["sel", "drop", "back"]), "k": 0} for n in sorted(by)]
        out.append({"text": "\n".join(header(fam, sys) + lines) + "\n", "name": "a.20n" if fam == "nav2" else "a.rnx", "call": {"via": "file"}, "picks": picks, "by": by, "fam": fam})
    return out


# %% execution and judgement
def run_cases(ctx, cases, budget):
    jobs = [{k: c.get(k) for k in ("text", "name", "call", "picks", "hand")} | {"job": "orbit"} for c in cases]
    reps = run_jobs(jobs, timeout=60, budget=budget, scratch=ctx.scratch)
    tc, done = [], []
    for c, r in zip(cases, reps):
        if r is None:
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "orbit: " + r["machinery"].strip()[-300:], replay_of(c))
            continue
        c["rep"] = r
        done.append(c)
        if r.get("timeout") or "died" in r or r.get("load"):
            ctx.violation(["NotLoaded"], f"orbit: {r}", replay_of(c))
            continue
        for p, q in zip(c["picks"], r["picks"]):
            recs = c["by"][p["sv"]]
            got, n = [], 0
            if q["ok"]:
                n = len(q["xyz"][0])
                for xyz in zip(*q["xyz"]):
                    bad = [x for x in xyz if x != x or abs(x) > 1e11]
                    got.append([] if len(bad) == 3 else [limbs(D(0) if x != x or abs(x) > 1e11 else D(x)) for x in xyz])
                if not q["same"]:
                    ctx.violation(["InputChanged"], f"orbit: {p}", replay_of(c))
            times = q.get("times", [])
            tc.append({"id": len(tc), "sys": p.get("sys", p["sv"][0]), "ok": q["ok"], "times": times, "got": got,
                       "recs": [dict(x, due=x["due"] and p["how"] != "one" and not c["call"].get("tl")) for x in recs], "c": c, "p": p, "q": q, "_w": 20 + 300 * len(times)})
    vs, st, tr = judge.validate("TraceOrbit", [{k: v for k, v in x.items() if k not in ("c", "p", "q")} for x in tc], os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    for v in vs:
        x = tc[v["id"]]
        if "Witness" in v["clauses"]:
            raise judge.Machinery(f"witness of {x['p']} does not hold")
        ctx.violation(v["clauses"], f"{x['c']['fam']} {x['p']['how']}: {x['p']['sv']} via {x['c']['call']} gave {x['q']}"[:700], replay_of(x["c"]))
    return done, tc


def replay_of(c):
    return {"kind": "orbit", "case": {k: v for k, v in c.items() if k != "rep"}}


def run(ctx):
    t = ctx.thorough
    ctx.model(("MC_Orbit", "orbit_deep" if t else "orbit"))
    gs = sorted((x["g"] for x in ctx.emitted("MC_Orbit", "orbit_emit")), key=str)
    r = random.Random(f"C17/{ctx.seed}")
    cases = lattice_cases(r, gs if t else r.sample(gs, 192))
    cases += [file_case(random.Random(f"C17/{ctx.seed}/{i}")) for i in range(3000 if t else 220)]
    cases += [hand_case(random.Random(f"C17/h/{ctx.seed}/{i}")) for i in range(600 if t else 50)]
    done, tc = run_cases(ctx, cases, 1500 if t else 250)
    ctx.traces += len(tc)
    ctx.info["positions"] = sum(len([g for g in x["got"] if g]) for x in tc)
    ctx.info["epochs_without_record"] = sum(len([g for g in x["got"] if not g]) for x in tc)
    ctx.info["lattice_orbits"] = sum(len([1 for q in x["recs"] if q["lat"]]) for x in tc)
    ctx.info["satellites"] = dict(Counter(x["sys"] for x in tc))
    ctx.info["selections"] = dict(Counter(x["p"]["how"] for x in tc))
    if not ctx.violations and (len(done) < len(cases) // 2 or not ctx.info["positions"]):
        raise judge.Machinery(f"only {len(done)} of {len(cases)} cases ran")
    for x in tc[:: max(1, len(tc) // 3)][:3]:
        ctx.samples.append({"sv": x["p"], "times": x["times"][:2], "result": {k: v for k, v in x["q"].items() if k != "times"}})


def replay(ctx, rp):
    c = rp["replay"]["case"]
    run_cases(ctx, [c], None)
    ctx.traces = 1
