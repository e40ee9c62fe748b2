"""Check of C22: location table, file finding, time conversion."""
from __future__ import annotations
import os, random
from collections import Counter

import docs, judge, heads
import box as B
import sessions as S
import stores
from pool import run_jobs
from render import hl

POSLINE = hl("  4789028.4701   176610.0133  4195017.0310", "APPROX POSITION XYZ") + "\n"


def obs_file(r, i):
    fam = r.choice(["obs2", "obs3"])
    skel = [(x, "") for x in (r.choice(heads.ANY[fam]) for _ in range(r.randrange(0, 5)))]
    if r.random() < 0.7:
        skel.append(("APPROX POSITION XYZ", ""))
    if r.random() < 0.08:
        skel.append(("APPROX POSITION XYZ", "blank"))
    r.shuffle(skel)
    c = heads.head_case(r, fam, skel)
    pos = [float(x) for q in c["recs"] if q["lab"] == "APPROX POSITION XYZ" for x in q["num"]][:3]
    if pos == [0.0, 0.0, 0.0]:   # not a place
        return obs_file(r, i)
    box = dict(B.PLAIN)
    if r.random() < 0.35:
        box["outer"] = r.choice(["gz", "gzn", "bz2", "bz1", "zip", "zipn", "Z"])
    name = B.name(f"s{i}", S.EXT[fam], box) if r.random() < 0.8 else r.choice(["plain", "x.dat", "y y.20o", "UPPER.20O", ".hidden.20o"])
    return {"fam": fam, "doc": c["doc"], "recs": c["recs"], "box": box, "name": name, "kind": "file", "states": "yes" if len(pos) == 3 else "no", "pos": pos if len(pos) == 3 else None}


# not files: a link to nothing, to a directory, a directory, a pipe
NOFILE = ["dangling", "linkdir", "dir", "fifo"]


def some_file(r, i):
    k = r.random()
    sub = r.choice(["", "", "d1", "d2"])
    if k < 0.42:
        f = obs_file(r, i)
        if r.random() < 0.12:
            f |= {"spoil": r.choice(stores.SPOIL), "seed": r.randrange(1000), "states": "open" if f["states"] == "yes" else "no"}
        elif r.random() < 0.12:
            f |= {"kind": "stream", "box": dict(B.PLAIN), "name": "0"}
        elif r.random() < 0.08:
            f |= {"link": True}
    elif k < 0.55:   # converted output
        parts = []
        f = obs_file(r, i)
        what = r.choice(["obs", "obs", "nav", "both"])
        if what != "nav":
            parts.append({"fam": f["fam"], "doc": f["doc"], "box": {**B.PLAIN, "suffix_name": ".20o"}})
        else:
            f |= {"states": "no", "pos": None, "recs": []}
        if what != "obs":
            n = stores.good(r, "nav", i)
            parts.append({"fam": n["fam"], "doc": n["doc"], "box": {**B.PLAIN, "suffix_name": ".20n"}})
        r.shuffle(parts)
        f |= {"kind": "nc", "name": f"c{i}.nc", "parts": parts}
    elif k < 0.65:
        f = stores.good(r, r.choice(["nav", "nav", "sp3"]), i) | {"kind": "file", "states": "no"}
    elif k < 0.72:   # a position in a file that is no supported observation file
        v, t = r.choice([("     2.11", "METEOROLOGICAL DATA"), ("     4.00", "OBSERVATION DATA"), ("     2.11", "NAVIGATION DATA"), ("     3.04", "NAVIGATION DATA"), ("     x.yz", "OBSERVATION DATA")])
        raw = hl(f"{v}           {t:<20}{'G':<20}", "RINEX VERSION / TYPE") + "\n" + POSLINE + hl("", "END OF HEADER") + "\n"
        f = {"kind": "raw", "raw": raw.encode(), "name": f"r{i}" + r.choice([".20o", ".rnx", ".20m", ""]), "states": "no"}
    elif k < 0.9:
        x = stores.bad(r, i)
        while x.get("doc"):
            x = stores.bad(r, i)
        f = {"kind": "dir" if x.get("dir") else "raw", "raw": x.get("raw", b""), "name": x["name"], "states": "no"}
    elif k < 0.95:
        f = {"kind": "junknc", "seed": r.randrange(9), "name": f"j{i}.nc", "states": "no"}
    elif k < 0.97:
        f = {"kind": "missing", "name": f"m{i}.20o", "states": "no"}
    else:   # names in the directory that are no files
        f = {"kind": r.choice(NOFILE), "name": r.choice([f"m{i}.20o", f"m{i}.nc", f"m{i}"]), "states": "no"}
    f = {"recs": [], "pos": None, "doc": None, "fam": "none"} | f
    f["sub"] = sub
    return f


def glob_text(p):
    return "".join("*" if e["p"] == "*" else "?" if e["p"] == "?" else e["c"] if e["p"] == "c" else "[" + ("!" if e["not"] else "") + "".join(e["s"]) + "]" for e in p)


def rand_glob(r, names):
    n = r.choice(names)
    out = []
    i = 0
    while i < len(n):
        k = r.random()
        if k < 0.12:
            if not out or out[-1]["p"] != "*":
                out.append({"p": "*"})
            i += r.randrange(0, 5)
            continue
        if k < 0.2:
            out.append({"p": "?"})
        elif k < 0.28 and n[i] not in "[]!-^":
            s = [n[i]] + [r.choice("abc019.") for _ in range(r.randrange(0, 3))]
            out.append({"p": "[", "s": s, "not": r.random() < 0.2})
        elif n[i] in "[]*?":
            out.append({"p": "?"})
        else:
            out.append({"p": "c", "c": n[i]})
        i += 1
    if glob_text(out) in ("**", "*.") or not out or set(glob_text(out)) <= {"."}:
        return [{"p": "*"}]
    return out


def table_case(r):
    files = []
    seen = set()
    for i in range(r.choice([1, 2, 3, 4, 5, 6])):
        f = some_file(r, i)
        if r.random() < 0.25 and files and f["kind"] != "stream":   # the name of another file in another directory
            g = r.choice(files)
            if g["name"].endswith(".nc") == f["name"].endswith(".nc") and g["kind"] != "stream" and f["kind"] != "nc" and f.get("box", B.PLAIN)["outer"] == g.get("box", B.PLAIN)["outer"] and f["kind"] != "dir":
                f["name"], f["sub"] = g["name"], r.choice([s for s in ("", "d1", "d2", "d3") if s != g["sub"]])
        if f["kind"] != "stream" and (f["sub"], f["name"]) in seen:
            continue
        seen.add((f["sub"], f["name"]))
        files.append(f)
    for i, f in enumerate(files):
        f["id"] = i
    steps = []
    for _ in range(r.choice([1, 2, 3])):
        use = [i for i, f in enumerate(files) if f["kind"] != "fifo"]   # nobody writes to the pipe
        ids = sorted(r.sample(use, r.randint(0 if r.random() < 0.1 else min(1, len(use)), len(use))))
        steps.append({"a": "table", "ids": ids, "bare": r.random() < 0.5, "as": r.choice(["list", "list", "tuple"])})
    here = [f for f in files if f["sub"] == "" and f["kind"] not in ("stream", "missing")]
    if here:
        for _ in range(r.choice([1, 2])):
            ps = [rand_glob(r, [f["name"] for f in here]) for _ in range(r.choice([1, 1, 2, 3]))]
            steps.append({"a": "find", "sub": "", "of": "", "pats": ps, "globs": [glob_text(p) for p in ps], "bare": len(ps) == 1 and r.random() < 0.5, "as": r.choice(["path", "str"])})
        f = r.choice(here)
        if f["kind"] not in NOFILE:
            steps.append({"a": "find", "sub": "", "of": f["name"], "pats": [], "globs": ["*"], "bare": r.random() < 0.5, "as": "path"})
    return {"files": files, "steps": steps}


def glob_case(r, pats):
    """exported patterns on a directory with every name of up to three characters"""
    import itertools
    names = ["".join(x) for n in (1, 2, 3) for x in itertools.product("ab.", repeat=n)]
    names = [n for n in names if n not in (".", "..")]
    files = [{"kind": "raw", "raw": b"", "name": n, "sub": "g", "states": "no", "recs": [], "pos": None, "id": i} for i, n in enumerate(names)]
    for f, k in zip(r.sample(files, 10), NOFILE + ["dir", "dangling"] + ["link"] * 4):
        f["kind"] = k
    steps = []
    for p in pats:
        t = glob_text(p)
        steps.append({"a": "find", "sub": "g", "of": "", "pats": [p], "globs": [t], "bare": r.random() < 0.5, "as": "path"})
    return {"files": files, "steps": steps}


def times_case(r):
    steps = []
    for _ in range(12):
        unit = r.choice(["ns", "ns", "us", "ms", "s"])
        step = {"ns": 1, "us": 1, "ms": 1000, "s": 1000000}[unit]
        shape = r.choice(["0d", "1d", "1d", "coord", "pick", "2d"])
        n = r.choice([1, 2, 3, 7]) if shape not in ("0d", "pick") else 1
        ts = []
        for _ in range(n):
            t = docs.tt(docs.rnd_start(r))
            if r.random() < 0.1:
                t[0] = r.choice([-2000000000, 2000000000, 0, -1])
            ts.append([t[0], r.choice([0, 1, 999999, 500000, r.randrange(10**6)]) // step * step])
        steps.append({"a": "times", "unit": unit, "shape": shape, "times": ts})
    return {"files": [], "steps": steps}


def run_cases(ctx, cases, budget):
    for i, c in enumerate(cases):
        c["id"] = i
    reps = run_jobs([{"job": "tools", "files": c["files"], "steps": c["steps"]} for c in cases], timeout=60, budget=budget, scratch=ctx.scratch)
    done, tc = [], []
    for c, r in zip(cases, reps):
        if r is None:
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "tools: " + r["machinery"].strip()[-300:], replay_of(c, 0))
            continue
        if r.get("timeout") or "died" in r:
            ctx.violation(["Timeout" if r.get("timeout") else "Died"], "tools: did not finish", replay_of(c, 0))
            continue
        if r.get("skip"):
            continue
        c["rep"] = r
        done.append(c)
        files = [{"id": f["id"], "name": f["name"], "dir": f["kind"] in NOFILE, "states": f["states"], "recs": f["recs"], "geo": g, "iv": iv}
                 for f, (g, iv) in zip(c["files"], r["geo"]) if f["kind"] != "missing" or f["states"] == "no"]
        steps = []
        for st, q in zip(c["steps"], r["steps"]):
            s = {"a": st["a"], "ok": q["ok"], "ids": st.get("ids", []), "rows": q.get("rows", []), "of": st.get("of", ""), "pats": st.get("pats", []), "found": q.get("found", []), "got": q.get("got", []),
                 "times": st.get("times", []) * (2 if st.get("shape") == "2d" else 1)}
            steps.append(s)
        if any(st["a"] == "find" for st in steps):
            sub = [f["sub"] for f in c["files"]]
            where = next(st["sub"] for st in c["steps"] if st["a"] == "find")
            # names elsewhere are not in the directory that is searched
            files = [f | {"dir": f["dir"] or s != where or c["files"][f["id"]]["kind"] in ("missing", "stream")} for f, s in zip(files, sub)]
        tc.append({"id": c["id"], "files": files, "steps": steps, "_w": 40 + 12 * len(steps) * (1 + len(files) // 10)})
    vs, st, tr = judge.validate("TraceTools", tc, os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    return done, vs


def replay_of(c, i):
    import base64
    files = [dict(f, raw={"__b64__": base64.b64encode(f["raw"]).decode()}) if "raw" in f else f for f in c["files"]]
    return {"kind": "tools", "case": {"files": files, "steps": c["steps"]}, "step": i}


def report(ctx, done, vs):
    byid = {c["id"]: c for c in done}
    for v in vs:
        c = byid[v["id"]]
        st, q = c["steps"][v["step"] - 1], c["rep"]["steps"][v["step"] - 1]
        fs = [(f["sub"], f["name"], f["kind"], f["states"], g) for f, g in zip(c["files"], c["rep"]["geo"])]
        ctx.violation(v["clauses"], f"{st['a']}: {st} -> {q} with {fs[:8]}"[:900], replay_of(c, v["step"]))


def run(ctx):
    t = ctx.thorough
    pats = sorted(ctx.emitted("MC_Tools", "glob_deep" if t else "glob"), key=str)
    r = random.Random(f"C22/{ctx.seed}")
    r.shuffle(pats)
    pats = [p for p in pats if not set(glob_text(p)) <= {"."}]
    pats = pats[: 4000 if t else 500]
    cases = [glob_case(r, pats[i : i + 25]) for i in range(0, len(pats), 25)]
    cases += [table_case(random.Random(f"C22/{ctx.seed}/{i}")) for i in range(9000 if t else 900)]
    cases += [times_case(random.Random(f"C22/t/{ctx.seed}/{i}")) for i in range(600 if t else 60)]
    done, vs = run_cases(ctx, cases, 2400 if t else 300)
    ctx.traces += sum(len(c["steps"]) for c in done)
    ctx.info["calls"] = dict(Counter(st["a"] for c in done for st in c["steps"]))
    ctx.info["rows"] = sum(len(q.get("rows", [])) for c in done for q in c["rep"]["steps"])
    ctx.info["files_found"] = sum(len(q.get("found", [])) for c in done for q in c["rep"]["steps"])
    report(ctx, done, vs)
    if not ctx.violations and (not ctx.info["rows"] or not ctx.info["files_found"]):
        raise judge.Machinery("nothing found")
    for c in done[:: max(1, len(done) // 3)][:3]:
        ctx.samples.append({"steps": c["steps"][:2], "result": c["rep"]["steps"][:2]})


def replay(ctx, rp):
    import base64
    c = rp["replay"]["case"]
    for f in c["files"]:
        if "raw" in f:
            f["raw"] = base64.b64decode(f["raw"]["__b64__"])
    report(ctx, *run_cases(ctx, [c], None))
    ctx.traces = 1
