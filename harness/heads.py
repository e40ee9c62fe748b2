"""Checks of C14 (first lines and headers) and C20 (what datasets state about themselves)."""
from __future__ import annotations
import os, random, string
from collections import Counter
from datetime import datetime, timedelta

import core, docs, judge, scen
from docs import tt
from pool import run_jobs
from render import hl

VLAB = "RINEX VERSION / TYPE"
SYSNAME = {"G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN"}
NAMES = ["a.20o", "b.rnx", "c.20n", "d.sp3", "noext", "e.dat", "ABMF00GLP_R_20181330000_01D_30S_MO.rnx", "f.o", "g.crx", "h.20g", "i i.20d", "j.20m"]


# %% header records: abstract record and its line
def canon(s):
    return f"{float(s.replace('D', 'E').replace('d', 'e')):.12g}"


def rec(content, lab, **kw):
    w = content[:60].split()
    return {"lab": lab, "txt": " ".join(w), "num": [], "t": [], "sys": "", "key": ""} | kw, hl(content, lab)


COMMENTS = ["", "plain words", "END OF HEADER", "this is not the END OF HEADER yet", "INTERVAL", "    30.000   INTERVAL", "APPROX POSITION XYZ", "RINEX VERSION / TYPE",
            "     1.0000        2.0000        3.0000  APPROX POSITION XYZ", "TIME OF FIRST OBS", "G   12 C1C L1C", "20 1  1  0  0  0.0000000  0  1G01", "> 2020 01 01 00 00  0.0000000  0  1",
            "a" * 60, "COMMENT", "IONOSPHERIC CORR", "# / TYPES OF OBSERV", "SYS / # / OBS TYPES", "G01 2020 01 01 00 00 00"]


def coef(r):
    v = r.choice([0.0, 1.1176e-8, -5.9605e-8, 1.3107e5, -1.9661e5, r.uniform(-9.9, 9.9) * 10.0 ** r.randrange(-9, 6)])
    s = f"{v:12.4E}"
    return s.replace("E", "D") if r.random() < 0.5 else s


def make(r, lab, key, ctx):
    """(abstract record, line) for a label"""
    if lab == "APPROX POSITION XYZ":
        if key == "blank":
            return rec("", lab)
        p = r.choice([[4789028.4701, 176610.0133, 4195017.031], [-2148744.3969, 4426641.1928, 4044655.8564], [0.0, 0.0, 0.0], [-1234567.1234, -999999.9999, 6378137.0],
                      [r.uniform(-6.3e6, 6.3e6) for _ in range(3)]])
        c = "".join(f"{x:14.4f}" for x in p)
        return rec(c, lab, num=[canon(x) for x in c.split()])
    if lab == "INTERVAL":
        c = f"{r.choice([30, 15, 1, 0.5, 0.1, 0.05, 0.0, 60, 900, 0.02, 3600, 0.125, 0.001, 10.007, 86400, 123456.789]):10.3f}"
        return rec(c, lab, num=[canon(c)])
    if lab in ("TIME OF FIRST OBS", "TIME OF LAST OBS"):
        t = r.choice([ctx["t0"], ctx["t1"], docs.rnd_start(r) + timedelta(microseconds=r.choice([0, 0, 500000, 123456, 1, 999999]))])
        if ctx["sys"] == "M":
            s = r.choice(["GPS", "GLO", "GAL", "BDT", "QZS", "IRN"])
        else:
            s = r.choice(["", SYSNAME.get(ctx["sys"], "")])
        c = f"{t.year:6d}{t.month:6d}{t.day:6d}{t.hour:6d}{t.minute:6d}{t.second:5d}.{t.microsecond * 10:07d}     {s:<3}"
        return rec(c, lab, t=tt(t), sys=s)
    if lab == "REC # / TYPE / VERS":
        no = r.choice(["0001", "4847K34286", "", "12345678901234567890", "45 76"])
        ty = r.choice(["MODEL X1", "TRIMBLE NETR9", "SEPT POLARX5", "LEICA GR25", "A", "JAVAD TRE_G3TH DELTA", "x  y", ""])
        ve = r.choice(["1.0", "5.37", "Nav 4.85 / Boot 4.81", ""])
        return rec(f"{no:<20}{ty:<20}{ve:<20}", lab, key=" ".join(ty.split()))
    if lab == "RCV CLOCK OFFS APPL":
        c = f"{r.choice([0, 1]):6d}"
        return rec(c, lab, num=[canon(c)])
    if lab == "IONOSPHERIC CORR":
        n = 3 if key == "GAL" else 4
        cs = [coef(r) for _ in range(n)]
        c = f"{key:<4} " + "".join(cs)
        if key.startswith("BD") and r.random() < 0.3:
            c += f" {r.choice('ABX')} {r.randrange(1, 30):2d}"
        elif n == 3 and r.random() < 0.4:
            c += f"{0.0:12.4E}"
        return rec(c, lab, num=[canon(x) for x in cs], key=key)
    if lab == "TIME SYSTEM CORR":
        a, b = f"{r.uniform(-9, 9) * 1e-9:17.10E}", f"{r.uniform(-9, 9) * 1e-15:16.9E}"
        t, w = r.choice([0, 61440, 503808, 604800]), r.choice([0, 1234, 2098])
        c = f"{key:<4} {a}{b}{t:7d}{w:5d}"
        if r.random() < 0.5:
            c += r.choice([" G19   2", " EGNOS  5", ""])
        return rec(c, lab, num=[canon(a), canon(b), str(t), str(w)], key=key)
    if lab in ("ION ALPHA", "ION BETA"):
        cs = [coef(r) for _ in range(4)]
        return rec("  " + "".join(cs), lab, num=[canon(x) for x in cs])
    if lab == "COMMENT":
        return rec(r.choice(COMMENTS), lab)
    if lab == "LEAP SECONDS":
        return rec(f"{r.choice([13, 17, 18]):6d}" + r.choice(["", "    18  1929     7"]), lab)
    raise KeyError(lab)


EXTRA = {"obs": [("MARKER NAME", "SITE 1"), ("MARKER NUMBER", "10003S002"), ("OBSERVER / AGENCY", f"{'OBS':<20}{'AGENCY':<40}"), ("ANT # / TYPE", f"{'0':<20}{'ANT   NONE':<20}"),
                 ("ANTENNA: DELTA H/E/N", "        0.0000        0.0000        0.0000"), ("PGM / RUN BY / DATE", f"{'gen':<20}{'verif':<20}{'20200101 000000 UTC':<20}"),
                 ("SIGNAL STRENGTH UNIT", "DBHZ"), ("GLONASS SLOT / FRQ #", "  2 R01  1 R02 -4"), ("WAVELENGTH FACT L1/2", "     1     1"), ("SYS / SCALE FACTOR", "G   10"), ("LEAP SECONDS", "    18")],
         "nav": [("PGM / RUN BY / DATE", f"{'gen':<20}{'verif':<20}{'20200101 000000 UTC':<20}"), ("DELTA-UTC: A0,A1,T,W", "   .133179128170D-06  .107469588780D-12   552960     1025"), ("CORR TO SYSTEM TIME", "  2020     1     1   -.1D-06")]}
# records that are free to come in any number and order
ANY = {"obs2": ["APPROX POSITION XYZ", "INTERVAL", "TIME OF FIRST OBS", "TIME OF LAST OBS", "REC # / TYPE / VERS", "COMMENT"],
       "obs3": ["APPROX POSITION XYZ", "INTERVAL", "TIME OF FIRST OBS", "TIME OF LAST OBS", "REC # / TYPE / VERS", "COMMENT", "RCV CLOCK OFFS APPL"],
       "nav2": ["ION ALPHA", "ION BETA", "COMMENT", "LEAP SECONDS"], "nav3": ["IONOSPHERIC CORR", "TIME SYSTEM CORR", "COMMENT", "LEAP SECONDS"]}
IKEYS = ["GPSA", "GPSB", "GAL", "BDSA", "BDSB", "QZSA", "QZSB", "IRNA", "IRNB"]
TKEYS = ["GPUT", "GLUT", "GAUT", "BDUT", "GPGA", "GLGP", "QZUT", "SBUT"]


def key_of(r, lab):
    return r.choice(IKEYS) if lab == "IONOSPHERIC CORR" else r.choice(TKEYS) if lab == "TIME SYSTEM CORR" else "blank" if lab == "APPROX POSITION XYZ" and r.random() < 0.12 else ""


def head_case(r, fam, skeleton=None):
    """a file whose header holds the records of the skeleton [(label, key)] besides the necessary ones"""
    if fam == "sp3":
        d = docs.gen_sp3(r, nsv=r.choice([1, 2, 3, 18]), ne=r.choice([1, 2]))
        m = d["meta"]
        m["nep"] = r.choice([0, 1, 2, 96, 1234567])
        m["cs"], m["ot"], m["ag"] = r.choice(["IGS14", "ITR92", "WGS84", "IGb08", "U"]), r.choice(["HLM", "FIT", "EXT", "BHN"]), r.choice(["IGS", "NGS", "COD", "JPLX", "A"])
        t = scen_t0(d)
        name = r.choice(NAMES)
        return {"t": "head", "fam": fam, "doc": d, "recs": [], "types": [], "ver": "", "sys": "", "eps": [],
                "sp3": [str(m["nep"]), m["cs"], m["ot"], m["ag"], *map(str, t)], "runs": [call("load", name, r.choice(["path", "str"]))]}
    small = {"obs2": dict(cap=80, ne=r.choice([1, 2, 3, 4, 5, 7])), "obs3": dict(cap=80, ne=r.choice([1, 2, 3, 4, 5, 7])),
             "nav2": dict(nsv=r.choice([1, 2]), ne=r.choice([1, 2])), "nav3": dict(nsv=r.choice([1, 2, 3, 5]), ne=r.choice([1, 2]))}[fam]
    d = docs.GEN[fam](r, **small)
    obs = fam.startswith("obs")
    while obs and d["h"]["sys"] == "S":
        d = docs.GEN[fam](r, **small)
    sy = d["h"].get("sys", "")
    if fam == "nav3" and r.random() < 0.3:
        sy = d["h"]["sys"] = r.choice(scen.doc_systems(d) + ["M"])
    ts = scen.doc_times(d) or [[0, 0]]
    py = lambda t: datetime(2020, 1, 1) + timedelta(seconds=t[0], microseconds=t[1])
    cx = {"sys": "G" if sy == " " else sy, "t0": py(ts[0]), "t1": py(ts[-1])}
    if skeleton is None:
        skeleton = [(x, key_of(r, x)) for x in (r.choice(ANY[fam]) for _ in range(r.randrange(0, 9)))]
        skeleton += [r.choice(EXTRA["obs" if obs else "nav"]) for _ in range(r.randrange(0, 4))]
        r.shuffle(skeleton)
    rows = []
    for lab, key in skeleton:
        rows.append(rec(key, lab) if lab in dict(EXTRA["obs" if obs else "nav"]) and key else make(r, lab, key, cx))
    if obs and sy == "M" and not any(q["lab"] == "TIME OF FIRST OBS" for q, _ in rows):
        rows.insert(r.randrange(len(rows) + 1), make(r, "TIME OF FIRST OBS", "", cx))
    types = []
    if obs:   # the lines of observation types, anywhere, comments in between
        tl = []
        if fam == "obs2":
            ty = d["h"]["types"]
            types = [["", ty]]
            for i in range(0, len(ty), 9):
                tl.append(rec((f"{len(ty):6d}" if i == 0 else " " * 6) + "".join(f"    {t}" for t in ty[i : i + 9]), "# / TYPES OF OBSERV"))
        else:
            for c in d["h"]["codes"]:
                cs = c["c"]
                types.append([c["s"], cs])
                for i in range(0, len(cs), 13):
                    tl.append(rec((f"{c['s']}  {len(cs):3d}" if i == 0 else " " * 6) + "".join(f" {x}" for x in cs[i : i + 13]), "SYS / # / OBS TYPES"))
        if r.random() < 0.25:
            for _ in range(r.choice([1, 2])):
                tl.insert(r.randrange(len(tl) + 1), make(r, "COMMENT", "", cx))
        k = r.randrange(len(rows) + 1)
        rows[k:k] = tl
    v = d["meta"]["version"]
    if obs:
        first = f"{v:9.2f}           {'OBSERVATION DATA':<20}{sy:<20}"
    elif fam == "nav2":
        from render import NAVTYPE2
        first = f"{v:9.2f}           {NAVTYPE2[sy]:<20}{d['meta'].get('col40', ''):<20}"
    else:
        first = f"{v:9.2f}           {'NAVIGATION DATA':<20}{sy:<20}"
    d["head"] = [""] * r.choice([0, 0, 0, 1, 3]) + [hl(first, VLAB)] + [x for _, x in rows] + [hl("", "END OF HEADER")]
    if r.random() < 0.3:   # trailing blanks cut off
        d["head"] = [x.rstrip() for x in d["head"]]
    eps = []
    if fam == "obs3":
        d["style"]["clock"] = r.random() < 0.6
        seen = []
        for ln in d["lines"]:
            if ln["k"] == "E" and ln["fl"] < 2:
                ln["ck"] = "" if r.random() < 0.15 else f"{r.uniform(-1, 1) * 1e-3:15.12f}"
                t = scen.doc_times({"fam": fam, "lines": [ln]})[0]
                eps.append([t, canon(ln["ck"]) if d["style"]["clock"] and ln["ck"] else ""])
    runs = []
    for _ in range(r.choice([1, 2])):
        runs.append(call("header", r.choice(NAMES), r.choice(["path", "str", "sio"])))
    for i in range(r.choice([1, 2, 3])):
        o, c = scen.any_opts(r, d) if i else ({}, {})
        c.pop("tlbox", None)
        if r.random() < 0.3:
            c["api"] = "obs" if obs else "nav"
            c.pop("tl", None)
        if any(x in o for x in ("use",)) and fam == "obs3" and not set(o["use"]) & set(scen.doc_systems(d)):
            o.pop("use")
        if o.get("tl") and o["tl"][1] < o["tl"][0]:
            o.pop("tl")
        if o.get("iv") and o["iv"][0] < 0:
            o.pop("iv")
        runs.append(call("load", r.choice(NAMES), r.choice(["path", "path", "str", "sio"]), o, c))
    return {"t": "head", "fam": fam, "doc": d, "recs": [q for q, _ in rows], "types": types, "ver": canon(str(v)), "sys": sy, "eps": eps, "sp3": [], "runs": runs}


def scen_t0(d):
    t = d["meta"]["t0"]
    s, mi, h = t["s"], t["mi"], t["h"]
    x = datetime(t["y"], t["mo"], t["d"]) + timedelta(hours=h, minutes=mi, seconds=s)
    return tt(x)[:1] + [t["f"] // 100]


def call(op, name, src, o=None, c=None):
    c = dict(c or {})
    c |= {"src": src, "file": name}
    return {"op": op, "o": core.opts(**(o or {})), "call": c, "name": "" if src == "sio" else name}


# %% first lines
VER = {2: ["2.11", "2.10", "2.00", "2", "2.0", "2.12"], 3: ["3.00", "3.02", "3.04", "3", "3.05"], 4: ["4.00", "4.01"], 0: ["0.00", "0.1"], 1: ["1.00", "1.9"], -1: ["", "abc", "2,11", "1.2.3", "x", "2-11", "v2.1"],
       5: ["5.00", "9.99"], 20: ["20.11", "21.1"], 30: ["30.0", "33.2"]}
KIND = {"O": ["OBSERVATION DATA", "O", "Observation"], "N": ["NAVIGATION DATA", "N: GNSS NAV DATA", "N"], "G": ["GLONASS NAV DATA", "G: GLONASS NAV DATA"], "E": ["E: GALILEO NAV DATA"],
        "H": ["H: GEO NAV MSG DATA", "H: SBAS NAV DATA"], "J": ["J: QZSS NAV DATA", "J"], "M": ["METEOROLOGICAL DATA", "M"], "C": ["CLOCK DATA", "C"], "L": ["LEGACY", "L"], "B": ["B: BROADCAST SBAS"],
        "S": ["SUMMARY", "S"], "o": ["observation data"], " ": [" ", " OBSERVATION DATA"], "X": ["XYZ", "X"]}
OTHER = ["", "\n\n\n", "\n" * 40, "".join(chr(i) for i in range(1, 256)) * 3, "hello world\n" * 30, "<html><body>404</body></html>\n" * 5, "2020 01 01 00 00 00\n" * 5, "\x00" * 500, ">" * 200,
         "%%%\n#x\n", "##\n", " #cP2020  1  1  0  0  0.00000000       1 ORBIT IGS14 HLM  IGS\n"]


def first_case(r, f):
    fam, sy = None, None
    if f["form"] == "sp3":
        d = docs.gen_sp3(r, nsv=2, ne=1, ver="acd"[0 if f["major"] == 1 else 1 if f["major"] == 3 else 2])
        from render import sp3_header
        line = "#" + ("abcd"[f["major"] - 1] if f["major"] else r.choice("efxACD 1")) + sp3_header(d)[0][2:]
        ver = "abcd"[f["major"] - 1] if f["major"] in (1, 3, 4) else ""
        fam = "sp3"
    elif f["form"] == "other":
        d, line, ver, fam = None, None, "", "obs2"
    else:
        obs = f["ty"] == "O" or f["ty"] not in "NGEHJ"
        ver3 = f["major"] == 3
        fam = ("obs" if obs else "nav") + ("3" if ver3 else "2")
        if obs:
            sy = f["sy"] if f["sy"] in ("GRECJSM" + ("I" if ver3 else " ")) else "M"
            d = docs.GEN[fam](r, cap=20, ne=1, sys=sy)
        elif ver3:
            d = docs.gen_nav3(r, nsv=1, ne=1)
        else:
            d = docs.gen_nav2(r, nsv=1, ne=1, sys={"N": "G", "G": "R", "E": "E"}.get(f["ty"], "G"))
        vt = r.choice(VER[f["major"]])
        ver = canon(vt) if f["major"] >= 0 else ""
        vf = r.choice([f"{vt:>9}", f"     {vt:<4}"])[:9]
        kinds = KIND[f["ty"]]
        content = f"{vf:<9}           {r.choice(kinds):<20.20}{f['sy'] + r.choice(['', ': x' if f['sy'] != ' ' else '']):<20.20}"
        if f["label"] == "ok":
            line = content + VLAB + r.choice(["", "", "", "  ", " " * 30])
        elif f["label"] == "bad":
            line = content + f"{r.choice(['RINEX VERSION / TIPE', 'COMMENT', 'rinex version / type', 'RINEX VERSION /TYPE', 'MARKER NAME', 'IONEX VERSION / TYPE', 'ANTEX VERSION / SYST']):<20}"
        else:
            line = content.rstrip()[: r.choice([60, 60, 41, 40, 25, 21])]
    if line is None:
        text = OTHER[f["major"]]
        job = {"text": "\n" * f["lead"] + text}
    else:
        d["first"] = [r.choice(["", "", "   "]) for _ in range(f["lead"])] + [line]
        job = {"doc": d}
    runs = []
    for op in ("info", "header", "time", "load"):
        src = r.choice(["path", "str", "sio"])
        if fam == "sp3" and op in ("load", "info"):
            src = r.choice(["path", "str"])
        q = call(op, r.choice(NAMES), src, None, {"use": "set"})
        q["ver"] = ver
        runs.append(q)
    if r.random() < 0.3 and fam != "sp3":
        q = call("load", r.choice(NAMES), "path", None, {"api": r.choice(["obs", "nav"])})
        q["ver"] = ver
        # a reader of one kind given a file of another kind is not specified
        if f["form"] == "rinex" and f["ty"] in ("O" if q["call"]["api"] == "obs" else "NGE"):
            runs.append(q)
    return {"t": "first", "fam": fam, "f": f, "runs": runs, **job}


# %% running
def spec_case(c, reps):
    out = {"id": c["id"], "t": c["t"], "fam": c["fam"]}
    if c["t"] == "first":
        out["f"] = c["f"]
    else:
        out |= {k: c[k] for k in ("recs", "types", "ver", "sys", "eps", "sp3")}
    out["runs"] = [{"op": q["op"], "o": q["o"], "name": q["name"], "ver": q.get("ver", ""), "r": {k: v for k, v in rr.items() if k != "msg"}} for q, rr in zip(c["runs"], reps)]
    out["_w"] = 30 + 10 * len(c["runs"])
    return out


def run_cases(ctx, cases, budget):
    for i, c in enumerate(cases):
        c["id"] = i
    reps = run_jobs([{"job": "heads", "fam": c["fam"], "runs": c["runs"], **{k: c[k] for k in ("doc", "text") if k in c}} for c in cases],
                    timeout=60, budget=budget, scratch=ctx.scratch)
    done, tc = [], []
    for c, r in zip(cases, reps):
        if r is None:
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "header: " + r["machinery"].strip()[-300:], replay_of(c, 0))
            continue
        if r.get("timeout") or "died" in r:
            ctx.violation(["Timeout" if r.get("timeout") else "Died"], f"{c['t']} {c['fam']}: did not finish", replay_of(c, 0))
            continue
        c["rep"] = r["r"]
        done.append(c)
        tc.append(spec_case(c, r["r"]))
    vs, st, tr = judge.validate("TraceHead", tc, os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    return done, vs


def replay_of(c, i):
    return {"kind": "head", "case": {k: v for k, v in c.items() if k not in ("rep", "id")}, "run": i}


def report(ctx, done, vs):
    byid = {c["id"]: c for c in done}
    for v in vs:
        c = byid[v["id"]]
        q, rr = c["runs"][v["run"] - 1], c["rep"][v["run"] - 1]
        keep = {k: x for k, x in rr.items() if x and k not in ("times", "svs")}
        what = f"{c['t']} {c['fam']} {q['op']}: {c.get('f') or [x['lab'] + '=' + x['txt'] for x in c['recs']]} {q['name']} {q['call']} -> {keep}"
        ctx.violation(v["clauses"], what[:900], replay_of(c, v["run"]))


def skeletons(ctx, fam, n):
    seqs = ctx.emitted("MC_Head", f"head_{fam}" + ("_deep" if ctx.thorough else ""))
    seqs = sorted(([(q["lab"], q["key"] if q["lab"] in ("IONOSPHERIC CORR", "TIME SYSTEM CORR") else "blank" if q["lab"] == "APPROX POSITION XYZ" and not q["num"] else "") for q in s]
                   for s in seqs), key=str)
    random.Random(f"{ctx.prop}/{ctx.seed}/{fam}").shuffle(seqs)
    return seqs[:n]


def head_cases(ctx, n_exported, n_random):
    out = []
    for fam in ("obs2", "obs3", "nav2", "nav3"):
        for i, s in enumerate(skeletons(ctx, fam, n_exported)):
            out.append(head_case(random.Random(f"{ctx.prop}/{ctx.seed}/{fam}/{i}"), fam, s))
    for i in range(n_random):
        r = random.Random(f"{ctx.prop}/{ctx.seed}/any/{i}")
        out.append(head_case(r, r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3"] + (["sp3"] if ctx.prop == "C20" else []))))
    return out


def run(ctx):
    t = ctx.thorough
    cases = []
    if ctx.prop == "C14":
        rows = sorted(ctx.emitted("MC_First", "first"), key=str)
        r = random.Random(f"C14/{ctx.seed}")
        r.shuffle(rows)
        # quick: every class of row, the common ones thinned out
        if not t:
            keep, seen = [], Counter()
            for f in rows:
                k = (f["form"], f["major"], f["ty"], f["label"]) if f["label"] != "short" else (f["form"], "short", f["ty"])
                seen[k] += 1
                if seen[k] <= (11 if f["major"] in (2, 3) and f["ty"] in ("O", "N", "G", "E") and f["label"] == "ok" else 5):
                    keep.append(f)
            rows = keep
        for n in range(3 if t else 1):
            cases += [first_case(random.Random(f"C14/{ctx.seed}/{n}/{i}"), dict(f)) for i, f in enumerate(rows)]
        cases += head_cases(ctx, 5000 if t else 90, 6000 if t else 400)
        for c in cases:
            if c["t"] == "head" and len(c["runs"]) > 2:
                c["runs"] = c["runs"][:2] if ctx.prop == "C14" else c["runs"]
    else:
        cases = head_cases(ctx, 6000 if t else 130, 12000 if t else 1100)
    done, vs = run_cases(ctx, cases, 2400 if t else 300)
    ctx.traces += sum(len(c["runs"]) for c in done)
    ctx.info["files"] = dict(Counter(c["t"] + " " + c["fam"] for c in done))
    ctx.info["calls"] = dict(Counter(q["op"] + ("" if rr["ok"] else " refused") for c in done for q, rr in zip(c["runs"], c["rep"])))
    report(ctx, done, vs)
    if not ctx.violations and (not any(rr["ok"] and rr["ver"] for c in done for rr in c["rep"])):
        raise judge.Machinery("nothing was read")
    for c in done[:: max(1, len(done) // 3)][:3]:
        ctx.samples.append({"kind": c["t"], "fam": c["fam"], "runs": [(q["op"], q["name"], rr["ok"]) for q, rr in zip(c["runs"], c["rep"])],
                            "records": [x["lab"] for x in c.get("recs", [])] or c.get("f")})


def replay(ctx, rp):
    c = rp["replay"]["case"]
    report(ctx, *run_cases(ctx, [c], None))
    ctx.traces = 1
