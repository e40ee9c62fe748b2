"""Checks of C12 (packings) and C18 (sessions): what a call returns depends on content and options only."""
from __future__ import annotations
import random
from collections import Counter

import core, docs, judge, render, scen
import box as B
from pool import run_jobs

EXT = {"obs2": ".20o", "obs3": ".rnx", "nav2": ".20n", "nav3": ".rnx", "sp3": ".sp3"}
ODD = {  # contents that are refused
    "empty": "", "blank": "\n\n\n", "text": "this is no RINEX file\nat all\n", "binary": "\x00\x01\x02\xff\xfe" * 40,
    "met": f"{'     2.11           METEOROLOGICAL DATA':<60}{'RINEX VERSION / TYPE':<20}\n",
    "v4": f"{'     4.00           OBSERVATION DATA    M':<60}{'RINEX VERSION / TYPE':<20}\n{'':60}END OF HEADER\n",
}


def doc_content(r, fam, tidy=False, **kw):
    small = {"obs2": dict(cap=60, ne=r.choice([1, 2, 3])), "obs3": dict(cap=60, ne=r.choice([1, 2, 3])),
             "nav2": dict(nsv=r.choice([1, 2]), ne=r.choice([1, 2])), "nav3": dict(nsv=r.choice([1, 2, 3]), ne=r.choice([1, 2])),
             "sp3": dict(nsv=r.choice([1, 2, 3]), ne=r.choice([1, 2]))}[fam] | kw
    if tidy and fam.startswith("obs"):
        small |= dict(junk=False, events=False, empty=False)
    d = docs.GEN[fam](r, **small)
    if tidy:
        d["style"]["zero"] = d["style"]["zdate"] = True
        d["style"]["clock"] = False
        d["style"]["num"] = 1
        d["style"]["final_nl"] = True
        for ln in d["lines"]:   # the packer takes no indicator beside a blank observation
            for c in ln.get("c", []):
                if isinstance(c, list) and c[0] < 0:
                    c[1] = c[2] = -1
        if fam == "obs2":
            d["meta"]["version"] = r.choice([2.11, 2.10])
    v = d["h"].get("ver") or d["meta"]["version"]
    return {"fam": fam, "doc": d, "version": str(v), "major": int(v) if fam != "sp3" else 0}


def odd_content(r):
    k = r.choice(sorted(ODD))
    return {"fam": k, "text": ODD[k], "version": "", "major": 0}


def call_table(r, content, n):
    """n calls (operation, options, way of passing them)"""
    out = [{"op": "load", "o": core.opts(), "call": {}}, {"op": "header", "o": core.opts(), "call": {}},
           {"op": "time", "o": core.opts(), "call": {}}, {"op": "info", "o": core.opts(), "call": {}}]
    d = content.get("doc")
    while len(out) < n:
        k = r.random()
        if k < 0.12:
            out.append({"op": "locs", "o": core.opts(), "call": {}})
            continue
        o, c = (scen.any_opts(r, d) if d else ({}, {}))
        if k < 0.2:
            o["iv"] = [-1, 0]
        elif k < 0.26 and d and scen.doc_times(d):
            ts = scen.doc_times(d)
            o["tl"] = [scen.tplus(ts[-1], 1000000), ts[0]]
        op = r.choice(["load", "load", "load", "obs", "nav"])
        if op != "load":
            c.pop("tlbox", None)
        out.append({"op": op, "o": core.opts(**o), "call": c})
    return out[:n]


def session_of(hist, r, contents, calls, boxes=True, base=0):
    """steps from an exported history: every file and stream gets a first content"""
    steps = []
    names, sn = {}, {}
    for st in hist:
        a = st["a"]
        for kind, key in (("f", st.get("f") if a == "write" else st.get("i") if a == "call" and st.get("t") == "f" else None),
                          ("s", st.get("s") if a in ("stream", "seek") else st.get("i") if a == "call" and st.get("t") == "s" else None)):
            if key is None:
                continue
            if kind == "f" and key not in names:
                names[key] = f"file{key}.dat"
                if a != "write":
                    steps.append(write(r, names[key], 0, boxes, contents))
            if kind == "s" and key not in sn:
                sn[key] = key
                if a != "stream":
                    steps.append({"a": "stream", "s": key, "c": 0})
        if a == "write":
            steps.append(write(r, names[st["f"]], st["c"], boxes, contents))
        elif a == "stream":
            steps.append({"a": "stream", "s": st["s"], "c": st["c"]})
        elif a == "seek":
            steps.append({"a": "seek", "s": st["s"], "p": st["p"]})
        elif a == "scribble":
            steps.append({"a": "scribble", "i": st["i"]})
        else:
            q = {"a": "call", "t": st["t"], "k": st["k"]}
            if st["t"] == "f":
                q |= {"f": names[st["i"]], "as": r.choice(["path", "path", "str", "tilde"])}
            else:
                q |= {"s": st["i"]}
            steps.append(q)
    return steps


def write(r, f, c, boxes, contents):
    b = dict(B.PLAIN, suffix="untold")
    if boxes and r.random() < 0.3 and "doc" in contents[c]:
        b["outer"] = r.choice(["gz", "gzn", "bz2", "bz1", "zip", "zipn", "Z"])
    return {"a": "write", "f": f, "c": c, "box": b, "mtime": r.random() < 0.5}


def finish_case(case, strict_refs=True):
    """references needed: every content and call that meet"""
    cur, scur, refs = {}, {}, set()
    for st in case["steps"]:
        if st["a"] == "write":
            cur[st["f"]] = st["c"]
        elif st["a"] == "stream":
            scur[st["s"]] = st["c"]
        elif st["a"] == "call":
            c = cur[st["f"]] if st["t"] == "f" else scur[st["s"]]
            refs.add((c, st["k"]))
    case["refs"] = sorted(refs)
    return case


def spec_case(case, rep):
    steps = []
    for st, ev in zip(case["steps"], rep["steps"]):
        steps.append({"a": st["a"], "f": str(st.get("f", st.get("s", ""))), "c": st.get("c", 0), "k": st.get("k", 0), "t": st.get("t", ""),
                      "box": st.get("box") or B.PLAIN, "tok": ev.get("tok", ""), "inf": ev.get("inf", ["", ""]),
                      "bytes": ev.get("bytes", ""), "disk": [[a, b] for a, b in ev["disk"].items()], "streams": ev["streams"],
                      "held": ev["held"], "was": ev["was"], "opts": ev["opts"]})
    return {"id": case["id"], "refs": rep["refs"], "ops": [k["op"] for k in case["calls"]],
            "contents": [{"version": c["version"], "major": c["major"]} for c in case["contents"]],
            "steps": steps, "_w": 100 * len(steps)}


# %% C12
def c12_cases(ctx, n_docs):
    packs = ctx.emitted("MC_Container", "container")
    packs = sorted({str(p): p for p in packs}.values(), key=str)
    cases = []
    fams = ["obs2", "obs3", "nav2", "nav3", "sp3"]
    for i in range(n_docs):
        r = random.Random(f"C12/{ctx.seed}/{i}")
        fam = fams[i % 5]
        chars = r.random() < 0.35
        con = doc_content(r, fam, tidy=True)
        text = render.render(con["doc"])
        if chars:
            con = con | {"text": B.foreign(text)}
        calls = [{"op": "load", "o": core.opts(), "call": {}}, {"op": "header", "part": True, "o": core.opts(), "call": {}},
                 {"op": "time", "o": core.opts(), "call": {}}, {"op": "info", "o": core.opts(), "call": {}}]
        o, c = scen.any_opts(r, con["doc"])
        calls.append({"op": "load", "o": core.opts(**o), "call": c})
        use = [p for p in packs if p["chars"] == chars and not (p["crx"] and not fam.startswith("obs"))]
        if not ctx.thorough:
            use = r.sample(use, min(len(use), 14))
        steps = []
        for j, p in enumerate(use):
            f = B.name(f"f{j}", EXT[fam], p)
            steps.append({"a": "write", "f": f, "c": 0, "box": dict(p, chars=False)})
            ks = range(5) if ctx.thorough else r.sample(range(5), 3)
            for k in ks:
                steps.append({"a": "call", "t": "f", "f": f, "k": k, "as": r.choice(["path", "path", "str", "tilde"])})
        if fam != "sp3":
            for j in range(3):
                nl = r.choice(["lf", "crlf"])
                crx = fam.startswith("obs") and not chars and r.random() < 0.4
                steps.append({"a": "stream", "s": j, "c": 0, "box": dict(B.PLAIN, crx=crx, nl=nl)})
                for k in r.sample([0, 2, 3, 4] if chars else range(5), 3):
                    steps.append({"a": "seek", "s": j, "p": r.randrange(3)})
                    steps.append({"a": "call", "t": "s", "s": j, "k": k})
        cases.append(finish_case({"contents": [con], "calls": calls, "steps": steps}))
    return cases


# %% C18
def c18_cases(ctx, n_pairs, n_deep):
    pairs = ctx.emitted("MC_Session", "session_pairs")
    deep = ctx.emitted("MC_Session", "session_deep", args=("-simulate", f"num={max(20, n_deep // 4)}", "-depth", "20", "-seed", str(ctx.seed)))
    out = []
    r = random.Random(f"C18/{ctx.seed}")
    pairs = sorted(pairs, key=str)
    deep = sorted({str(h): h for h in deep}.values(), key=str)
    r.shuffle(pairs)
    r.shuffle(deep)
    fams = ["obs2", "obs3", "nav2", "nav3"]
    for i, hist in enumerate(pairs[:n_pairs] + deep[:n_deep]):
        r = random.Random(f"C18/{ctx.seed}/{i}")
        streams = any(s.get("t") == "s" or s["a"] in ("stream", "seek") for s in hist)
        fam = fams[i % 4] if r.random() < 0.9 or streams else "sp3"
        c0 = doc_content(r, fam)
        # another content of the same kind, a cut off one, another kind, something that is no RINEX file
        con = [c0]
        while len(con) < 3:
            k = r.random()
            if k < 0.35:
                con.append(doc_content(r, fam))
            elif k < 0.5:
                t = render.render(c0["doc"])
                con.append({**c0, "text": t[: len(t) * r.randrange(20, 95) // 100]})
                con[-1].pop("doc")
            elif k < 0.8:
                con.append(doc_content(r, r.choice(fams + ([] if streams else ["sp3"]))))
            else:
                con.append(odd_content(r))
        r2 = con[:]
        r.shuffle(r2)
        calls = call_table(r, c0, 16)
        if len(hist) <= 3:   # exported over eight calls: any eight of the table
            pick = r.sample(range(16), 8)
            calls = [calls[j] for j in pick]
        steps = session_of(hist, r, r2, calls)
        out.append(finish_case({"contents": r2, "calls": calls, "steps": steps}))
    return out


def run_cases(ctx, cases, budget):
    for i, c in enumerate(cases):
        c["id"] = i
    reps = run_jobs([{"job": "session", **{k: c[k] for k in ("contents", "calls", "steps", "refs")}} for c in cases],
                    timeout=120, budget=budget, scratch=ctx.scratch)
    done, tc, skipped = [], [], 0
    for c, r in zip(cases, reps):
        if r is None:
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "session: " + r["machinery"].strip()[-300:], pack_replay(c, 0))
            continue
        if r.get("timeout") or "died" in r:
            ctx.violation(["Timeout" if r.get("timeout") else "Died"], "session: did not finish", pack_replay(c, 0))
            continue
        n = next((i for i, e in enumerate(r["steps"]) if e.get("skip")), None)
        if n is not None:
            skipped += 1
            c["steps"], r["steps"] = c["steps"][:n], r["steps"][:n]
            if not n:
                continue
        c["rep"] = r
        done.append(c)
        tc.append(spec_case(c, r))
    import os
    vs, st, tr = judge.validate("TraceSession", tc, os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    ctx.count(sessions_cut_short_by_packer=skipped)
    return done, vs


def pack_replay(c, step):
    return {"kind": "session", "case": {k: c[k] for k in ("contents", "calls", "steps", "refs")}, "step": step}


def report(ctx, done, vs):
    byid = {c["id"]: c for c in done}
    for v in vs:
        c = byid[v["id"]]
        st = c["steps"][v["step"] - 1]
        ev = c["rep"]["steps"][v["step"] - 1]
        k = c["calls"][st["k"]] if "k" in st else {}
        what = f"{c['contents'][0]['fam']} {st['a']} {k.get('op', '')}: {k.get('o', '')} on {st.get('f', st.get('s'))}, box " \
               f"{[s.get('box') for s in c['steps'][:v['step']] if s['a'] in ('write', 'stream') and s.get('f', s.get('s')) == st.get('f', st.get('s'))][-1:]}: {ev.get('tok')} {ev.get('inf')}"
        ctx.violation(v["clauses"], what, pack_replay(c, v["step"]))


def run(ctx):
    if ctx.prop == "C12":
        ctx.model(("MC_Container", "container"))
        cases = c12_cases(ctx, 1500 if ctx.thorough else 130)
    else:
        ctx.model(("MC_Session", "session_pairs"))
        cases = c18_cases(ctx, *((6000, 4000) if ctx.thorough else (500, 250)))
    done, vs = run_cases(ctx, cases, 2400 if ctx.thorough else 300)
    calls = [(c, st, ev) for c in done for st, ev in zip(c["steps"], c["rep"]["steps"]) if st["a"] == "call"]
    ctx.traces += len(calls)
    ctx.info["calls_by_operation"] = dict(Counter(c["calls"][st["k"]]["op"] for c, st, ev in calls))
    ctx.info["calls_refused"] = sum(ev["tok"].startswith("!") for _, _, ev in calls)
    ctx.info["sessions"] = len(done)
    if ctx.prop == "C12":
        ctx.info["packings"] = dict(Counter(st["box"]["outer"] + ("+crx" if st["box"]["crx"] else "") for c in done for st in c["steps"] if st["a"] == "write"))
    report(ctx, done, vs)
    if not ctx.violations and (not calls or all(ev["tok"].startswith("!") for _, _, ev in calls)):
        raise judge.Machinery("no call returned anything")
    for c in done[:: max(1, len(done) // 3)][:3]:
        ctx.samples.append({"steps": c["steps"][:6], "results": [e.get("tok") for e in c["rep"]["steps"][:6]]})


def replay(ctx, rp):
    c = rp["replay"]["case"]
    done, vs = run_cases(ctx, [c], None)
    ctx.traces = len(c["steps"])
    report(ctx, done, vs)
